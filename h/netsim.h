// A TCP world around an event-loop server: scripted clients whose steps,
// segmentation and faults are explored, and the oracle of what the application
// must see.  Shared by the checks of both networking front ends.
#ifndef VERIF_NETSIM_H
#define VERIF_NETSIM_H
#include <errno.h>
#include <string.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "mcrt.h"

namespace ns {
enum Framing { F_RAW, F_SHORT, F_LONG, F_HTTP, F_EXT };

// ---- reference framing ---------------------------------------------------
// 0: whole packet of length len; -1: more bytes needed; -2: cannot become one
inline int ref_frame(Framing f, const std::string &b, size_t &len) {
    if (b.empty()) return -1;
    if (f == F_RAW) { len = b.size(); return 0; }
    if (f == F_EXT) { // test filter: 1 length byte, payload; 0xff is invalid
        unsigned n = (unsigned char)b[0]; if (n == 0xff) return -2; if (b.size() < n + 1) return -1; len = n + 1; return 0; }
    if (f == F_SHORT || f == F_LONG) {
        size_t h = f == F_SHORT ? 3 : 5;
        if ((unsigned char)b[0] != 2) return -2;
        if (b.size() < h) return -1;
        uint64_t n = 0; for (size_t i = 1; i < h; i++) n = n << 8 | (unsigned char)b[i];
        if (b.size() < h + 1) return -1;        // decided once one byte past the head is there
        if (n < h + 1 || n > 0x7fffffff) return -2;
        if (b.size() < n) return -1;
        if (b[n - 1] != 3) return -2;
        len = n; return 0;
    }
    size_t e = b.find("\r\n\r\n"); if (e == std::string::npos) return -1;
    e += 4; size_t cl = 0, p = 0;
    while (p < e) { size_t q = b.find("\r\n", p); std::string l = b.substr(p, q - p); p = q + 2;
        if (l.compare(0, 16, "Content-Length: ") == 0) { if (l[16] == '-') return -2; cl = strtoul(l.c_str() + 16, 0, 10); break; } }
    if (b.size() < e + cl) return -1;
    len = e + cl; return 0;
}
inline std::string mk(Framing f, const std::string &body) {
    std::string r; size_t n;
    switch (f) {
    case F_SHORT: n = body.size() + 4; r = "\x02"; r += (char)(n >> 8); r += (char)n; return r + body + "\x03";
    case F_LONG: n = body.size() + 6; r = "\x02"; r += (char)(n >> 24); r += (char)(n >> 16); r += (char)(n >> 8); r += (char)n; return r + body + "\x03";
    case F_HTTP: return body.empty() ? "GET / HTTP/1.1\r\nHost: a\r\n\r\n" : mc::strf("POST /p HTTP/1.1\r\nContent-Length: %zu\r\n\r\n", body.size()) + body;
    case F_EXT: r = std::string(1, (char)body.size()); return r + body;
    default: return body;
    }
}

// ---- what the application saw of one session -------------------------------
struct Sess {
    int id; vk::Conn *c; int fd; uint16_t peer; int srv;
    int connects, terminals; bool closed_by_app, dead;   // dead: no further callback allowed
    std::string got;               // bytes handed to the application, in order
    std::vector<std::string> pkts; int fail_connect;
    struct W { std::string d; int rc; bool close; };
    std::vector<W> writes; bool want_close; int errors, last_err;
    bool peer_fin, peer_rst; bool io_error;              // injected send/recv error
    bool pending_close, out, failed;
    std::string consumed;
    Sess() : id(0), c(0), fd(-1), peer(0), srv(0), connects(0), terminals(0), closed_by_app(false), dead(false), fail_connect(0), want_close(false), errors(0), last_err(0), peer_fin(false), peer_rst(false), io_error(false), pending_close(false), out(false), failed(false) {}
};
struct World;
extern World *W;
struct Client {            // a scripted peer
    int id; uint16_t port; uint64_t t0; vk::Conn *c; std::string stream; size_t off; int pc; std::string script; bool refused;
    bool out, removed; void *pdata; bool started, returned, dropped; int rc; int how;   // out: a connection the application opens
    // script letters: C connect, S send the whole remaining stream in explored pieces,
    // 1 send one chunk [explored length], F fin, R reset, D drain window, . nothing
    std::vector<size_t> cuts;      // allowed chunk ends (empty: every byte)
    uint16_t srvport;
};
struct World {
    Framing framing; std::vector<Client> clients; std::map<uint16_t, Sess> sess;   // by peer port
    uint32_t ip; int max_async; bool faults_send, faults_recv, faults_accept, faults_epoll, async_env; bool finished; int srvid;
    std::map<int, int> code; bool batch; std::function<bool()> extra; size_t max_recv; bool exact_srv; int maxclients; bool drains;
    bool faults_eintr_only; bool rst_spots; bool dropped_ok; int regfaults, aborted;
    World() : framing(F_RAW), ip(0x0a000001), max_async(0), faults_send(false), faults_recv(false), faults_accept(false), faults_epoll(false), async_env(false), finished(false), srvid(0), batch(true), max_recv(1 << 30), exact_srv(true), maxclients(1 << 30), drains(true), faults_eintr_only(false), rst_spots(false), dropped_ok(false), regfaults(0), aborted(0) { outsrv = -1; }
    Client &add(const std::string &script, const std::string &stream, uint16_t srvport = 9000) { Client c; c.id = clients.size(); c.port = 1001 + c.id; c.t0 = 1700000000000000ULL; c.c = 0; c.stream = stream; c.off = 0; c.pc = 0; c.script = script; c.refused = false; c.srvport = srvport; c.out = c.removed = false; c.pdata = 0; c.started = c.returned = c.dropped = false; c.rc = 0; c.how = 0; clients.push_back(c); return clients.back(); }

    bool can_step(Client &k) { if (k.pc >= (int)k.script.size()) return false; if (k.out && (!k.c || (k.c->connecting && k.script[k.pc] != 'K'))) return false; return true; }
    // an outgoing connection; script letter K: the connect completes (well or not)
    Client &add_out(const std::string &script, const std::string &stream) { Client &k = add(script, stream); k.out = true; return k; }
    int outsrv; std::map<uint16_t, int> srvs; std::map<uint16_t, Framing> fr;      // several servers: ids and framings by port
    Framing framing_of(Client &k) { return fr.count(k.srvport) ? fr[k.srvport] : framing; }
    int srv_of(Client &k) { return k.out ? outsrv : srvs.count(k.srvport) ? srvs[k.srvport] : srvid; }
    int connect_hook(vk::Conn *c) {
        Client *k = 0; for (size_t i = 0; i < clients.size(); i++) if (clients[i].out && clients[i].port == c->port) k = &clients[i];
        if (!k) mc::fail("net:connect to the wrong place", "connect() goes to port %u", c->port);
        MC_CHECK(c->ip == ip, "net:connect to the wrong place", "connect() goes to address %08x", c->ip);
        k->how = mc::choose(3); mc::op("  [connect to %u: %s]", c->port, k->how == 0 ? "established" : k->how == 1 ? "in progress" : "refused");
        k->c = c;
        if (k->how == 2) { k->pc = k->script.size(); return ECONNREFUSED; }
        if (k->how == 0 && k->pc < (int)k->script.size() && k->script[k->pc] == 'K') k->pc++;
        return k->how == 0 ? 0 : EINPROGRESS;
    }
    void step(Client &k) {
        char a = k.script[k.pc];
        Sess *s = sess.count(k.port) ? &sess[k.port] : 0;
        switch (a) {
        case 'C': rt::now_us += 2000; k.t0 = rt::now_us; k.c = vk::incoming(k.srvport, ip, k.port); k.pc++; if (!k.c) { k.refused = true; k.pc = k.script.size(); } mc::op("client %d connects", k.id); break;
        case 'S': case '1': {
            size_t left = k.stream.size() - k.off; if (!left) { k.pc++; break; }
            size_t n;
            if (k.cuts.empty()) n = left - mc::choose(left);           // first alternative: everything
            else { std::vector<size_t> e; for (size_t i = 0; i < k.cuts.size(); i++) if (k.cuts[i] > k.off && k.cuts[i] < k.stream.size()) e.push_back(k.cuts[i]); int j = mc::choose(e.size() + 1); n = (j == 0 ? k.stream.size() : e[j - 1]) - k.off; }
            vk::deliver(k.c, k.stream.substr(k.off, n)); mc::op("client %d sends %s", k.id, mc::esc(k.stream.substr(k.off, n), 40).c_str()); k.off += n;
            if (k.off == k.stream.size() || a == '1') k.pc++;
            break; }
        case 'K': { int e = mc::choose(3); if (!k.c->connecting) { k.pc++; break; } vk::complete(k.c, e == 0 ? 0 : e == 1 ? ECONNREFUSED : ETIMEDOUT); k.pc++; if (e) { k.pc = k.script.size(); k.how = 3; } mc::op("connection to %u %s", k.port, e ? "fails" : "is established"); break; }
        case 'F': vk::fin(k.c); if (s) s->peer_fin = true; k.pc++; mc::op("client %d shuts down", k.id); break;
        case 'R': vk::rst(k.c); if (s) s->peer_rst = true; k.pc++; mc::op("client %d resets", k.id); break;
        case 'D': vk::set_wnd(k.c, 1L << 40); k.pc++; break;
        default: k.pc++;
        }
        mc::step();
    }
    bool env_step(bool forced) {
        std::vector<Client *> en; for (size_t i = 0; i < clients.size(); i++) if (can_step(clients[i])) en.push_back(&clients[i]);
        std::vector<vk::Conn *> blocked; if (drains) for (size_t i = 0; i < vk::conns().size(); i++) { vk::Conn *c = vk::conns()[i]; if (c->fd >= 0 && c->connected && c->wnd <= 0) blocked.push_back(c); }
        bool ex = (bool)extra;
        int n = en.size() + blocked.size() + 0;
        if (n == 0) { return ex ? extra() : false; }
        int k = mc::choose(n);
        if (k < (int)en.size()) step(*en[k]);
        else { vk::Conn *c = blocked[k - en.size()]; long w = 1L << 40; int v = mc::choose_dev(3); if (v) w = v; vk::set_wnd(c, w); mc::op("peer of fd %d opens its window (%ld)", c->fd, w > 1000 ? -1 : w); }
        return true;
    }
    void fp() {
        uint64_t h = 77;
        for (size_t i = 0; i < clients.size(); i++) { Client &k = clients[i]; h = mc::hmix(h, k.pc * 1000003ull + k.off); if (k.c) { h = mc::hmix(h, (uint64_t)(k.c->fd + 1) << 32 | k.c->in.size() << 16 | k.c->sent.size()); h = mc::hmix(h, k.c->eof * 8 + k.c->rst * 4 + k.c->connecting * 2 + (k.c->wnd <= 0)); }
            if (sess.count(k.port)) { Sess &s = sess[k.port]; h = mc::hmix(h, s.got.size() * 64 + s.writes.size() * 8 + s.dead * 4 + s.terminals * 2 + s.closed_by_app); } }
        mc::state(h);
    }
    bool idle() {
        fp();
        if (!env_step(true)) return false;
        if (batch) while (mc::choose_dev(2)) { if (!env_step(true)) break; }
        return true;
    }
    long fault(const char *call, int fd, size_t n) {
        vk::Conn *c = vk::by_fd(fd);
        if (async_env && (!strcmp(call, "send") || !strcmp(call, "recv") || !strcmp(call, "accept"))) { if (mc::choose_dev(2)) env_step(false); c = vk::by_fd(fd); }
        if (!strcmp(call, "send") && faults_send) {
            int k = mc::choose_dev(n > 2 ? 6 : n > 1 ? 5 : 4);
            if (k == 1) { if (c) c->wnd = 0; mc::op("[send blocks]"); return -EAGAIN; }
            if (k == 2) { mc::op("[send interrupted]"); return -EINTR; }
            if (k == 3) { if (c) { vk::rst(c); c->rst = false; c->eof = true; if (sess.count(c->port)) sess[c->port].peer_rst = true; } mc::op("[send: connection reset]"); return -ECONNRESET; }
            if (k == 4) { if (c) c->wnd = 1; mc::op("[send takes 1 byte]"); return 1; }
            if (k == 5) { if (c) c->wnd = n - 1; mc::op("[send takes %zu bytes]", n - 1); return n - 1; }
        }
        if (!strcmp(call, "recv") && faults_recv) {
            int k = mc::choose_dev(faults_eintr_only ? 3 : 5);
            if (k == 1) { mc::op("[recv interrupted]"); return -EINTR; }
            if (k == 2) { mc::op("[recv would block]"); return -EAGAIN; }
            if (k == 3) { if (c && sess.count(c->port)) sess[c->port].io_error = true; mc::op("[recv times out]"); return -ETIMEDOUT; }
            if (k == 4) { mc::op("[recv gives 1 byte]"); return 1; }
        }
        if (!strcmp(call, "accept") && faults_accept) {
            int k = mc::choose_dev(4);
            if (k == 1) return -EINTR; if (k == 2) { aborted++; return -ECONNABORTED; } if (k == 3) return -EMFILE;
        }
        if (!strcmp(call, "epoll_ctl") && faults_epoll) { if (mc::choose_dev(2)) { mc::op("[epoll_ctl fails on fd %d]", fd); regfaults++; if (c && sess.count(c->port)) sess[c->port].io_error = true; return -ENOMEM; } }
        return 0;
    }
    
    void install() {
        W = this;
        rt::set_idle([this]() { return idle(); });
        vk::on_connect = [this](vk::Conn *c) { return connect_hook(c); };
        vk::fault = [this](const char *c, int fd, size_t n) { return fault(c, fd, n); };
        vk::on_misuse = [](const char *w, int fd) { mc::fail("net:descriptor misuse", "%s on descriptor %d that is not open", w, fd); };
    }
    // ---- callbacks from the application under test -------------------------
    Sess &find(const char *cb, uint32_t sip, uint16_t peer, int fd, int srv, bool mustlive = true) {
        if (!sess.count(peer)) mc::fail("net:unknown session", "%s for a session whose peer %u never connected (fd %d)", cb, peer, fd);
        Sess &s = sess[peer];
        MC_CHECK(sip == ip, "net:wrong peer address", "%s reports peer address %08x", cb, sip);
        MC_CHECK(!s.dead, "net:callback after close", "%s on session %u after it was %s", cb, peer, s.closed_by_app ? "closed by the application" : "reported closed");
        MC_CHECK(s.fd == fd, "net:wrong descriptor", "%s on session %u carries descriptor %d, the session's is %d", cb, peer, fd, s.fd);
        if (exact_srv) MC_CHECK(srv == srv_of(clients[s.id]), "net:wrong server", "%s carries server id %d instead of %d", cb, srv, srv_of(clients[s.id]));
        return s;
    }
    Sess &on_connect(uint32_t sip, uint16_t peer, int fd, int srv, bool ok, void *pd) {
        mc::op("  onConnect(fd %d peer %u ok %d)", fd, peer, ok); mc::step();
        Client *k = 0; for (size_t i = 0; i < clients.size(); i++) if (clients[i].port == peer && clients[i].c) k = &clients[i];
        MC_CHECK(k, "net:unknown session", "onConnect for peer %u that never connected", peer);
        MC_CHECK(!sess.count(peer) || sess[peer].connects == 0, "net:duplicate onConnect", "second onConnect for peer %u", peer);
        MC_CHECK(sip == ip, "net:wrong peer address", "onConnect reports peer address %08x", sip);
        if (k->out) {
            MC_CHECK(k->c->fd >= 0 || !ok, "net:connect reported late", "onConnect(true) for peer %u whose descriptor is closed", peer);
            MC_CHECK(!k->c->connecting, "net:connect reported early", "onConnect(%d) for peer %u while the connection is still being established", ok, peer);
            MC_CHECK(ok == (k->how != 3) || (!ok && k->c->peer_gone), "net:wrong connect result", "onConnect(%d) for peer %u, the connection %s", ok, peer, k->how == 3 ? "failed" : "succeeded");
            MC_CHECK(pd == k->pdata, "net:wrong connect data", "onConnect for peer %u carries the wrong user data", peer);
        }
        MC_CHECK(k->c->fd == fd, "net:wrong descriptor", "onConnect for peer %u carries descriptor %d, accepted as %d", peer, fd, k->c->fd);
        if (!k->out) MC_CHECK(ok, "net:accepted connection reported failed", "onConnect(false) for an accepted connection");
        Sess &s = sess[peer]; s.c = k->c; s.fd = fd; s.peer = peer; s.srv = srv; s.connects++; s.id = k->id;
        if (k->c->eof) s.peer_fin = true; if (k->c->rst) s.peer_rst = true;
        s.out = k->out; s.failed = !ok; if (!ok) { s.dead = true; s.terminals++; }
        if (exact_srv) MC_CHECK(srv == srv_of(*k), "net:wrong server", "onConnect carries server id %d instead of %d", srv, srv_of(*k));
        return s;
    }
    Sess &on_read(uint32_t sip, uint16_t peer, int fd, int srv, const char *d, int n) {
        std::string p(d, n > 0 ? n : 0);
        mc::op("  onRead(peer %u, %s)", peer, mc::esc(p, 60).c_str()); mc::step();
        Sess &s = find("onRead", sip, peer, fd, srv);
        MC_CHECK(n > 0, "net:empty packet", "onRead with %d bytes", n);
        Client &k = clients[s.id];
        std::string rest = k.stream.substr(0, k.off).substr(s.got.size()); size_t len = 0;
        MC_CHECK(p == rest.substr(0, p.size()), "net:corrupted input", "packet %s is not what peer %u sent next (%s)", mc::esc(p).c_str(), peer, mc::esc(rest).c_str());
        Framing framing = framing_of(k);
        if (framing != F_RAW) {
            int r = ref_frame(framing, rest, len);
            MC_CHECK(r == 0, "net:packet delivered early", "peer %u: %s delivered although no whole packet was received", peer, mc::esc(p).c_str());
            MC_CHECK(len == p.size(), "net:wrong packet boundary", "peer %u: packet of %zu bytes delivered as %zu", peer, len, p.size());
        }
        s.got += p; s.pkts.push_back(p);
        mc::state(mc::hash(s.got, mc::hmix(peer, s.writes.size())));
        return s;
    }
    Sess &on_close(uint32_t sip, uint16_t peer, int fd, int srv) {
        mc::op("  onClose(peer %u)", peer); mc::step();
        Sess &s = find("onClose", sip, peer, fd, srv);
        MC_CHECK(s.c->eof || s.peer_fin || s.peer_rst || s.c->peer_gone, "net:spurious close", "onClose for peer %u that neither closed nor reset", peer);
        if (!s.peer_rst && !s.c->peer_gone) check_all_delivered(s, "onClose");
        s.terminals++; s.dead = true; return s;
    }
    // terminal error codes of a session
    Sess *on_error(uint32_t sip, uint16_t peer, int fd, int srv, int err) {
        mc::op("  onError(peer %u fd %d code %d)", peer, fd, err); mc::step();
        if (!sess.count(peer)) { code[err]++; return 0; }
        if (err == 5) { Sess &s = find("onError", sip, peer, fd, srv); s.errors++; return &s; }   // not ready: informational
        Sess &s = find("onError", sip, peer, fd, srv);
        s.errors++; s.last_err = err; s.terminals++; s.dead = true;
        Client &k = clients[s.id];
        std::string rest = k.stream.substr(0, k.off).substr(s.got.size()); size_t len;
        if (err == 2) { int r = ref_frame(framing_of(k), rest, len); 
            // the library may look at a shorter prefix than everything sent; a valid packet at the front is never invalid
            MC_CHECK(r == -2, "net:valid packet rejected", "peer %u: connection dropped as invalid with %s pending", peer, mc::esc(rest).c_str()); }
        else if (err == 4) { MC_CHECK(rest.size() >= max_recv, "net:spurious overflow", "peer %u: receive buffer reported full with %zu bytes pending, limit %zu", peer, rest.size(), max_recv); }
        else if (err == 1) MC_CHECK(s.io_error || s.peer_rst || s.c->peer_gone, "net:spurious error", "peer %u: socket error reported without one", peer);
        else MC_CHECK(regfaults > 0, "net:spurious error", "peer %u: error code %d although nothing failed", peer, err);
        return &s;
    }
    // before/after an application close()/write() call
    void app_close(Sess &s) { mc::op("  app closes peer %u", s.peer); s.closed_by_app = true; s.dead = true; }
    void check_all_delivered(Sess &s, const char *when) {
        Client &k = clients[s.id];
        std::string all = k.stream.substr(0, k.off); std::string rest = all.substr(s.got.size()); size_t len;
        Framing framing = framing_of(k);
        if (framing == F_RAW) MC_CHECK(rest.empty(), "net:input lost", "%s: %zu bytes from peer %u never delivered", when, rest.size(), s.peer);
        else MC_CHECK(ref_frame(framing, rest, len) != 0, "net:packet lost", "%s: whole packet from peer %u never delivered: %s", when, s.peer, mc::esc(rest).c_str());
    }
    // the bytes the peer received must be the successful writes in order, each failed
    // write contributing at most a prefix
    void check_output(Sess &s, bool complete) {
        const std::string &o = s.c->sent;
        std::set<size_t> at; at.insert(0);      // possible positions in o after write i
        bool partial_ok = !complete; bool cut = false;
        for (size_t i = 0; i < s.writes.size(); i++) {
            std::set<size_t> nx;
            for (std::set<size_t>::iterator p = at.begin(); p != at.end(); ++p) {
                const std::string &d = s.writes[i].d;
                size_t m = 0; while (m < d.size() && *p + m < o.size() && o[*p + m] == d[m]) m++;
                if (m == d.size()) nx.insert(*p + m);
                else if (*p + m == o.size() && partial_ok) { nx.insert(o.size()); cut = true; }
                if (s.writes[i].rc != 0) for (size_t q = 0; q <= m; q++) nx.insert(*p + q);
                if (s.writes[i].rc != 0) nx.insert(*p);
            }
            at.swap(nx);
        }
        if (!at.count(o.size())) {
            std::string w; for (size_t i = 0; i < s.writes.size(); i++) w += mc::strf(" %s->%d", mc::esc(s.writes[i].d, 40).c_str(), s.writes[i].rc);
            mc::fail(complete ? "net:output lost or reordered" : "net:output corrupted", "peer %u received %s; writes were%s", s.peer, mc::esc(o, 120).c_str(), w.c_str());
        }
    }
    void final_check() {
        MC_CHECK(vk::sigpipes == 0, "net:SIGPIPE", "a write to a connection the peer had closed raises SIGPIPE, which kills the process");
        for (size_t i = 0; i < clients.size(); i++) {
            Client &k = clients[i];
            if (!k.c) continue;
            if (k.out && !sess.count(k.port)) {
                // no callback: the attempt failed inside connect(), is still pending, or the application closed it meanwhile
                if (k.rc < 0) MC_CHECK(k.c->fd < 0, "net:descriptor leak", "connect() to %u failed but its descriptor %d is still open", k.port, k.c->fd);
                else if (!k.dropped) MC_CHECK(k.c->connecting && k.c->fd >= 0, "net:connect result lost", "connection attempt to %u ended without onConnect", k.port);
                continue;
            }
            if (!sess.count(k.port) && k.removed) { MC_CHECK(k.c->fd < 0, "net:connection ignored", "client %d of a removed server still has descriptor %d", k.id, k.c->fd); continue; }
            if (!sess.count(k.port)) {
                // never reported: it must have been turned away and closed, with a reason
                MC_CHECK(regfaults > 0 || aborted > 0 || maxclients < (1 << 30), "net:connection turned away", "client %d was turned away although nothing failed and there was room", k.id);
                MC_CHECK(k.c->fd < 0 && k.c->closes == 1, "net:connection ignored", "client %d was accepted but never announced (fd %d, closed %d times)", k.id, k.c->fd, k.c->closes);
                continue;
            }
            Sess &s = sess[k.port];
            MC_CHECK(s.terminals <= 1, "net:two terminal callbacks", "peer %u got %d terminal callbacks", k.port, s.terminals);
            bool lib_closed = s.terminals > 0;
            if (lib_closed || s.closed_by_app) MC_CHECK(k.c->fd < 0 && k.c->closes == 1, "net:descriptor leak", "session %u is over but its descriptor %d is still open", k.port, k.c->fd);
            MC_CHECK(k.c->closes <= 1, "net:double close", "connection of peer %u closed %d times", k.port, k.c->closes);
            if (s.failed) continue;
            bool gone = s.peer_fin || s.peer_rst || s.c->peer_gone || s.io_error;
            bool close_wanted = false, may_close = false; for (size_t j = 0; j < s.writes.size(); j++) if (s.writes[j].close) { may_close = true; if (s.writes[j].rc == 0) close_wanted = true; }
            if (k.c->fd < 0 && !lib_closed && !s.closed_by_app) MC_CHECK(may_close, "net:silent close", "connection of peer %u closed without telling the application", k.port);
            if (!lib_closed && !s.closed_by_app && !gone) {
                if (close_wanted) MC_CHECK(k.c->fd < 0, "net:close after write forgotten", "session %u was to be closed after its last write, still open at the end", k.port);
                check_output(s, true);
                if (k.c->fd >= 0) { check_all_delivered(s, "at the end"); MC_CHECK(k.c->in.empty(), "net:input not read", "%zu bytes from peer %u sit unread at the end", k.c->in.size(), k.port); }
            } else check_output(s, false);
            if ((s.peer_fin || s.peer_rst) && k.c->fd >= 0) mc::fail("net:peer close not noticed", "peer %u closed, session still open at the end", k.port);
            Client &kk = k; std::string rest = kk.stream.substr(0, kk.off).substr(s.got.size()); size_t len;
            Framing framing = framing_of(k);
            if (k.c->fd >= 0 && framing != F_RAW && ref_frame(framing, rest, len) == -2) mc::fail("net:invalid packet tolerated", "peer %u sent %s and is still connected", k.port, mc::esc(rest).c_str());
        }
    }
};
}
#endif
