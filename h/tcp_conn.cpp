// Outgoing connections of either networking front end in the simulated world.
#include "netapi.h"
static int cid; static map<uint16_t, int> connno;
static ns::Client *cl_of(World &w, uint16_t port) { for (size_t i = 0; i < w.clients.size(); i++) if (w.clients[i].port == port) return &w.clients[i]; return 0; }
// the application opens the connection to peer number i
static void app_connect(World &w, size_t i) {
    if (i >= w.clients.size() || !w.clients[i].out) return; ns::Client &k = w.clients[i]; if (k.started) return;
    k.started = true; k.pdata = (void *)(long)(0x1000 + k.id);
    mc::op("  app connects to peer %u", k.port); mc::step();
    int rc = api_connect(cid, "10.0.0.1", k.port, k.pdata);
    k.rc = rc; k.returned = true;
    mc::op("  connect to peer %u returns %d", k.port, rc);
    if (rc >= 0) { MC_CHECK(k.how != 2, "net:refused connect accepted", "connect to peer %u was refused by the network but returned %d", k.port, rc); MC_CHECK(k.c && (k.c->fd == rc || k.c->fd < 0), "net:connect result", "connect to peer %u returned %d, its descriptor is %d", k.port, rc, k.c ? k.c->fd : -1); 
        if (k.how == 0) MC_CHECK(w.sess.count(k.port), "net:connect result lost", "connection to %u was established at once but never announced", k.port); }
    else if (w.sess.count(k.port)) { Sess &s = w.sess[k.port]; if (!s.dead) { s.dead = true; s.closed_by_app = true; } }   // told through the return value
    else if (k.how == 2 && k.c) MC_CHECK(k.c->closes == 1 || k.c->fd < 0, "net:descriptor leak", "refused connect to %u leaks its descriptor", k.port);
    if (rc < 0 && k.how != 2) { bool told = w.sess.count(k.port); MC_CHECK(told || w.finished || k.c == 0 || k.c->closes, "net:connect failed for no reason", "connect to peer %u fails although the network accepts", k.port); }
}
static void init(World &w, bool server, uint32_t rm = 102400) {
    w.install(); w.max_recv = rm;
    MC_CHECK(api_init(24) == 0, "net:init", "init fails");
    if (server) { w.srvid = api_srv(9000, w.framing, 1024, rm, 1024, 102400); MC_CHECK(w.srvid >= 0, "net:createSrv", "createSrv fails"); }
    cid = api_client(w.framing, 1024, rm, 1024, 102400); MC_CHECK(cid >= 0, "net:createClient", "createClient fails");
    w.outsrv = cid;
}
// environment plus "the loop wakes up for a message": starts connections late
static int want, armed; 
static void run(World &w) {
    int ticks = 0; 
    rt::set_idle([&]() {
        int pend = 0; for (size_t i = 0; i < w.clients.size(); i++) if (w.clients[i].out && !w.clients[i].started) { pend = i + 1; break; }
        if (pend && want > 0 && mc::choose(2)) { want--; mc::op("message: connect"); api_msg(100 + pend - 1, NULL); return true; }
        if (w.idle()) return true;
        if (pend && want > 0) { want--; api_msg(100 + pend - 1, NULL); return true; }
        if (armed > 0) return false; if (++ticks == 1) return false; api_stop(); return false; });
    api_start(); w.final_check(); finish();
}
// every outcome of every connect, from before the loop, a message or a timer; then data both ways
static void s_basic() {
    World w; Env env_; w.framing = ns::F_EXT; string p = ns::mk(w.framing, "ping");
    static const char *scr[] = { "K1F", "KR", "K11", "KF" };
    int n = 2; for (int i = 0; i < n; i++) { w.add_out(scr[i && !mc::thorough() ? 0 : mc::choose(4)], p + p); w.clients[i].cuts.push_back(p.size() + 2); }
    w.faults_send = w.faults_recv = true;
    mc::nontrivial(); init(w, false); mc::set_deviations(mc::tier(1, 2));
    int pol = mc::choose(mc::tier(3, 4)); want = armed = 0;
    proc->co = [=](StSession &s, Sess &x, bool ok) { if (ok) act(s, x, pol, "hello"); };
    int rp = mc::choose(mc::tier(2, 3));
    proc->rd = [=](StSession &s, Sess &x) { act(s, x, rp, "more"); };
    proc->ms = [&](int id, void *) { app_connect(w, id - 100); };
    proc->tm = [&](int id, void *) { armed--; app_connect(w, id); };
    for (int i = 0; i < n; i++) { int k = mc::choose(3); if (k == 0) { if (!NW || 1) app_connect(w, i); } else if (k == 1) want++; else { armed++; api_timer(i, 1 + i, NULL); } }
    run(w);
}
// registrations that fail while connecting
static void s_regfail() {
    World w; Env env_; w.framing = ns::F_EXT; string p = ns::mk(w.framing, "ping");
    w.add_out("K1F", p); w.add_out("K1", p); w.clients[0].cuts.push_back(9); w.clients[1].cuts.push_back(9);
    w.faults_epoll = true; w.faults_send = true; mc::nontrivial(); init(w, false); mc::set_deviations(2);
    int pol = mc::choose(3); want = 1; armed = 0;
    proc->co = [=](StSession &s, Sess &x, bool ok) { if (ok) act(s, x, pol, "hello"); };
    proc->ms = [&](int id, void *) { app_connect(w, id - 100); };
    app_connect(w, 0); run(w);
}
// reconnect from inside the callbacks: descriptors are reused at once
static void s_reconnect() {
    World w; Env env_; w.framing = ns::F_EXT; string p = ns::mk(w.framing, "ping");
    static const char *scr[] = { "K1F", "K1R", "K1", "KF" };
    int a = mc::choose(4); w.add_out(scr[a], p); w.add_out("K1", p); w.add_out("K1", p); 
    for (int i = 0; i < 3; i++) w.clients[i].cuts.push_back(9);
    bool server = mc::choose(2); if (server) { w.add("C1", p); w.clients[3].cuts.push_back(9); }
    mc::nontrivial(); init(w, server); mc::set_deviations(mc::tier(1, 2)); w.faults_send = mc::thorough();
    want = armed = 0; int where = mc::choose(5); bool first = mc::choose(2);   // where to close-and-reconnect
    auto redo = [&w, first](StSession &s, Sess &x) { if (x.id > 1) return; size_t nx = x.id + 1; if (first) { if (!x.dead) app_close(s); app_connect(w, nx); } else { app_connect(w, nx); if (!x.dead) app_close(s); } };
    proc->co = [=](StSession &s, Sess &x, bool ok) { if (!x.out) return; if (!ok) { if (where != 4 && x.id < 2) app_connect(*ns::W, x.id + 1); return; } if (where == 0 && x.id == 0) redo(s, x); else if (!x.dead) app_write(s, "hello", false); };
    proc->rd = [=](StSession &s, Sess &x) { if (where == 1 && x.out) redo(s, x); else if (!x.dead) app_write(s, "re", false); };
    proc->cl = [=](StSession &s, Sess &x) { if (where == 2 && x.out) { if (first) { api_close(s); app_connect(*ns::W, x.id + 1); } else { app_connect(*ns::W, x.id + 1); api_close(s); } } };
    proc->er = [=](StSession &s, Sess *x, int) { if (where == 3 && x && x->out && x->id < 2) app_connect(*ns::W, x->id + 1); };
    app_connect(w, 0);
    if (mc::thorough() && mc::choose(2)) app_connect(w, 1);
    run(w);
}
// errors that connect() must report
static void s_args() {
    World w; Env env_; w.framing = ns::F_EXT; string p = ns::mk(w.framing, "ping");
    init(w, true); mc::nontrivial();
    int k = mc::choose(5); int before = vk::open_fds().size();
    int bad = k == 0 ? -1 : k == 1 ? 9999 : k == 2 ? w.srvid : cid;
    if (k < 3) { w.add_out("K", p); int rc = api_connect(bad, "10.0.0.1", w.clients[0].port, NULL); MC_CHECK(rc < 0, "net:bad server id accepted", "connect with server id %d returned %d", bad, rc); }
    else if (k == 3) { vk::fault = [](const char *c, int, size_t) -> long { return !strcmp(c, "socket") ? -EMFILE : 0; }; int rc = api_connect(cid, "10.0.0.1", 1001, NULL); MC_CHECK(rc < 0, "net:connect without descriptor", "connect returned %d though no descriptor was available", rc); }
    else { // more connections than the table holds
        int ok = 0; for (int i = 0; i < 60; i++) w.add_out("K", p);
        vk::on_connect = [&](vk::Conn *c) { for (size_t i = 0; i < w.clients.size(); i++) if (w.clients[i].port == c->port) { w.clients[i].c = c; w.clients[i].how = 1; } return EINPROGRESS; };
        for (int i = 0; i < 60; i++) { int rc = api_connect(cid, "10.0.0.1", w.clients[i].port, NULL); if (rc >= 0) ok++; else MC_CHECK(!w.clients[i].c || w.clients[i].c->fd < 0, "net:descriptor leak", "refused connection %d keeps its descriptor", i); }
        mc::op("%d of 60 connections open", ok); MC_CHECK(ok >= 12 && ok < 60, "net:connection table", "%d connections open with a limit of 24", ok);
        mc::done();
    }
    MC_CHECK((int)vk::open_fds().size() == before, "net:descriptor leak", "a refused connect leaks a descriptor");
    mc::done();
}
// packets on an outgoing connection in every segmentation
static void s_seg() {
    World w; Env env_; static const ns::Framing FR[] = { ns::F_SHORT, ns::F_EXT, ns::F_RAW, ns::F_LONG }; w.framing = FR[mc::choose(4)];
    string st = ns::mk(w.framing, "a") + ns::mk(w.framing, "") + (w.framing == ns::F_LONG ? "" : ns::mk(w.framing, "bc")); if (mc::choose(2)) st += "\x02";
    w.add_out(mc::choose(2) ? "KS" : "KSF", st); mc::nontrivial(); init(w, false); mc::set_deviations(0);
    want = armed = 0; app_connect(w, 0); run(w);
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
    s.push_back({ "connect", s_basic, false, 0, "all outcomes of two connects started before the loop, by message or by timer; data both ways, faults" });
    s.push_back({ "registration-failures", s_regfail, false, 0, "event registration failing at every point of connecting" });
    s.push_back({ "reconnect", s_reconnect, false, 0, "closing and reconnecting inside every callback; descriptor reuse; a server beside it" });
    s.push_back({ "arguments-limits", s_args, false, 0, "bad ids, no descriptors, more connections than the table holds" });
    s.push_back({ "segmentation", s_seg, false, 0, "every segmentation of what the peer sends" });
    return mc::run(argc, argv, s, "connect outcomes, peer scripts, faults and application actions enumerated against the real event loop in a virtual kernel; non-trivial: a connection is attempted");
}
