// TCP sessions of either networking front end in the simulated world.
#include <signal.h>
#include <errno.h>
#include "netapi.h"

// ---- inbound: every segmentation -----------------------------------------
static const ns::Framing FR[] = { ns::F_SHORT, ns::F_LONG, ns::F_HTTP, ns::F_RAW, ns::F_EXT };
static void seg(ns::Framing f, const vector<string> &streams, bool everybyte, int maxpieces) {
    World w; Env env_; w.framing = f;
    string st = streams[mc::choose(streams.size())];
    mc::nontrivial();
    ns::Client &k = w.add("CS", st);
    if (mc::choose(2)) k.script = "CSF";
    if (!everybyte) { // pieces bounded: choose the cut positions
        mc::set_deviations(maxpieces - 1);
    }
    setup(w);
    mc::set_deviations(1);
    go(w);
}
static void s_seg_short() {
    vector<string> v; string a = ns::mk(ns::F_SHORT, ""), b = ns::mk(ns::F_SHORT, "xy"), c = ns::mk(ns::F_SHORT, "\x03\x02");
    v.push_back(a + b + a); v.push_back(c + c); v.push_back(b + "\x02"); v.push_back(a + "Q" + a); v.push_back(string("\x02\x00\x05zQ", 5) + a); v.push_back(string("\x02\x00\x03\x03", 4) + a); v.push_back(string("\x02\x00\x00", 3) + a); v.push_back(string("\x02\xff\xff", 3) + "abcde");
    seg(ns::F_SHORT, v, true, 0);
}
static void s_seg_long() {
    vector<string> v; string a = ns::mk(ns::F_LONG, ""), b = ns::mk(ns::F_LONG, "\x03");
    v.push_back(a + b); v.push_back(b + a.substr(0, 5)); v.push_back(string("\x02\x00\x00\x00\x05\x03", 6) + a); v.push_back(string("\x02\xff\xff\xff\xff", 5) + a); v.push_back(string("\x02\x80\x00\x00\x06", 5) + a); v.push_back(string("\x02\x00\x01\x00\x00", 5) + a); v.push_back(string("\x02\x00\x00\x00\x07zQ", 7) + a);
    seg(ns::F_LONG, v, true, 0);
}
static void s_seg_raw() { vector<string> v; v.push_back("abcdefghij"); v.push_back(string("\0\0\xff", 3) + "z"); seg(ns::F_RAW, v, true, 0); }
static void s_seg_ext() { vector<string> v; v.push_back(string("\x00\x02", 2) + "ab" + string("\x00\x01", 2) + "c" + string("\x03", 1) + "de"); v.push_back(string("\x01", 1) + "a\xff" + string("\x00", 1)); seg(ns::F_EXT, v, true, 0); }
// HTTP streams are long: all placements of up to 2 (3) cuts
static void s_seg_http() {
    vector<string> v; string g = ns::mk(ns::F_HTTP, ""), p = ns::mk(ns::F_HTTP, "body"), e = "POST / HTTP/1.1\r\nContent-Length: 0\r\n\r\n";
    v.push_back(g + p); v.push_back(p + g); v.push_back(e + g); v.push_back(p + p); v.push_back("HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc" + g); v.push_back("POST / HTTP/1.1\r\nX: \r\nContent-Length: 4\r\n\r\n\r\n\r\n" + g); v.push_back(g + "POST / HTTP/1.1\r\nContent-Length: -5\r\n\r\n"); v.push_back("HTTP/1.1 304 Not\r\n\r\n" + g);
    World w; Env env_; w.framing = ns::F_HTTP; string st = v[mc::choose(v.size())]; mc::nontrivial();
    ns::Client &k = w.add("CS", st);
    int cuts = mc::tier(2, 3); size_t at = 0; vector<size_t> c;
    for (int i = 0; i < cuts; i++) { size_t left = st.size() - at; size_t d = mc::choose(left); if (d == 0) break; at += d; c.push_back(at); if (i == 1 && cuts == 3 && at % 3) break; }
    string sc = "C"; w.clients[0].script = "C";
    setup(w);
    size_t n = 0; vk::Conn **pc = &w.clients[0].c; bool started = false; size_t idx = 0;
    w.extra = [&]() -> bool { if (!*pc) return false; ns::Client &kk = w.clients[0]; if (kk.off >= st.size()) return false; size_t e2 = idx < c.size() ? c[idx] : st.size(); idx++; vk::deliver(kk.c, st.substr(kk.off, e2 - kk.off)); mc::op("client sends %s", mc::esc(st.substr(kk.off, e2 - kk.off), 50).c_str()); kk.off = e2; return true; };
    int ticks = 0; rt::set_idle([&]() { if (w.idle()) return true; if (++ticks == 1) return false; api_stop(); return false; });
    api_start(); w.final_check(); finish();
}
// ---- several clients, interleaved arrivals, batched events ----------------
static void s_interleave() {
    World w; Env env_; w.framing = FR[mc::choose(2)]; 
    string a = ns::mk(w.framing, "a"), b = ns::mk(w.framing, "bcd");
    int n = mc::tier(2, 3);
    for (int i = 0; i < n; i++) { string st = i == 0 ? a + b : i == 1 ? b + a : a + a; static const char *sc[] = { "C11", "C11F", "C1R" }; ns::Client &k = w.add(sc[i % 3], st); size_t l = (i == 1 ? b : a).size(); k.cuts.push_back(l - 1); k.cuts.push_back(l); k.cuts.push_back(l + 2); }
    mc::nontrivial(); mc::set_deviations(mc::tier(2, 3));
    setup(w);
    go(w);
}
// ---- receiving is interrupted, gives less than there is, or nothing ---------
static void s_hiccups() {
    World w; Env env_; w.framing = FR[mc::choose(5)]; w.faults_recv = true; w.batch = true;
    string a = ns::mk(w.framing, "a"), b = ns::mk(w.framing, "bcd");
    ns::Client &k = w.add("C11F", b + a); k.cuts.push_back(b.size() - 1); k.cuts.push_back(b.size() + a.size()); 
    w.add("C1F", a).cuts.push_back(a.size());
    mc::nontrivial(); mc::set_deviations(mc::tier(2, 3));
    static const uint32_t ri[] = { 1, 10240 }; setup(w, 20, ri[mc::choose(2)], 200);
    go(w);
}
// ---- the application acts in its callbacks ---------------------------------
static void s_callbacks() {
    World w; Env env_; w.framing = ns::F_SHORT; string a = ns::mk(w.framing, "a");
    w.faults_send = true; w.faults_recv = true; w.async_env = true;
    w.add("C11F", a + a).cuts.push_back(a.size()); w.add("C1R", a);
    w.clients[0].cuts.push_back(a.size()); w.clients[1].cuts.push_back(a.size() - 1);
    mc::nontrivial(); mc::set_deviations(mc::tier(1, 2));
    setup(w);
    proc->co = [](StSession &s, Sess &x, bool) { int k = x.id == 0 ? mc::choose_dev(5) : 0; act(s, x, k == 4 ? 4 : k, "hello"); };
    proc->rd = [](StSession &s, Sess &x) { int k = x.id == 0 ? mc::choose(7) : 1; act(s, x, k, "reply"); };
    proc->cl = [](StSession &s, Sess &x) { if (mc::choose_dev(2)) api_close(s); };
    proc->er = [](StSession &s, Sess *x, int e) { if (x && x->dead && mc::choose_dev(2)) api_close(s); };
    go(w);
}
// ---- outbound: partial sends, blocking, errors at every send ---------------
static void s_output() {
    World w; Env env_; w.framing = ns::F_RAW; w.faults_send = true;
    w.add("C111", "abc"); w.clients[0].cuts.push_back(1); w.clients[0].cuts.push_back(2);
    mc::nontrivial(); mc::set_deviations(mc::tier(3, 4));
    static const uint32_t maxs[] = { 1000, 12, 7 }; uint32_t sm = maxs[mc::choose(3)];
    setup(w, 20, 64, 128, 4, sm);
    int base = mc::choose(3), pat = mc::choose(6); bool after = pat >= 4; /* the application writes on after a closing write */
    static int n; n = 0;
    proc->rd = [=](StSession &s, Sess &x) {
        n++;
        if (x.dead || (x.want_close && !after)) return;
        string d = mc::strf("<%d:", n) + string(base == 0 ? 1 : base == 1 ? 4 : 9, (char)('A' + n)) + ">";
        bool cl = pat == 1 || pat == 5 ? n == 2 : pat == 2 ? n == 3 : pat == 4 ? n == 1 : false;
        if (cl) x.want_close = true;
        app_write(s, d, cl);
        if (pat == 3 && !x.dead) app_write(s, "+" + d, false);
    };
    go(w);
}
// ---- lifecycle: connects, closes, resets, descriptor reuse, faults ---------
static void s_lifecycle() {
    World w; Env env_; w.framing = ns::F_EXT; w.faults_recv = true; w.faults_send = true; w.faults_accept = true; w.async_env = true; w.batch = true;
    string p = ns::mk(w.framing, "ping");
    static const char *scr[] = { "CF", "CR", "C1F", "C1R", "C1" };
    int n = mc::tier(2, 3);
    for (int i = 0; i < n; i++) { w.add(scr[i == 2 ? 2 : mc::choose(5)], p); w.clients[i].cuts.push_back(p.size()); }
    mc::nontrivial(); mc::set_deviations(2);
    setup(w);
    static const int POL[] = { 0, 1, 2, 3, 6 }; int pol = POL[mc::choose(mc::tier(5, 5))];
    proc->rd = [=](StSession &s, Sess &x) { act(s, x, pol, "pong"); };
    go(w);
}
static void s_epollfail() {
    World w; Env env_; w.framing = ns::F_EXT; w.faults_epoll = true; w.faults_send = true;
    string p = ns::mk(w.framing, "ping");
    w.add("C1", p); w.add("C1F", p); w.clients[0].cuts.push_back(9); w.clients[1].cuts.push_back(9);
    mc::nontrivial();
    setup(w); mc::set_deviations(2);
    int pol = mc::choose(3);
    proc->rd = [=](StSession &s, Sess &x) { act(s, x, pol, "pong"); };
    proc->co = [=](StSession &s, Sess &x, bool) { if (x.id == 0) act(s, x, mc::choose(4) == 1, "hi"); };
    go(w);
}
// ---- sessions kept by the application and used later -----------------------
static void s_stale() {
    World w; Env env_; w.framing = ns::F_EXT; string p = ns::mk(w.framing, "q");
    w.add(mc::choose(2) ? "C1F" : "C1R", p); w.add("C1", p);
    w.clients[0].cuts.push_back(9); w.clients[1].cuts.push_back(9);
    w.batch = true; mc::nontrivial(); mc::set_deviations(mc::tier(2, 3));
    setup(w);
    int how = mc::choose(3); bool closes_self = mc::choose(2); static int used; used = 0;
    proc->rd = [=](StSession &s, Sess &x) { if (x.id == 0) { if (closes_self) app_close(s); } else app_write(s, "for-second", false); };
    // the answer for the first client comes late, at any later moment
    auto late = [&]() {
        if (used || !saved.count(1001)) return; used = 1;
        StSession s = saved[1001]; Sess &x = w.sess[1001]; bool live = !x.dead;
        mc::op("late use of the first client's session (%s)", live ? "live" : "over");
        if (how == 0) { if (live) app_write(s, "late", false); else { int rc = api_write(s, "late", 4, false); MC_CHECK(rc != 0, "net:write to a closed session succeeds", "write to a session that is over returned 0"); } }
        else if (how == 1) { if (live) app_write(s, "late", true); else { int rc = api_write(s, "late", 4, true); MC_CHECK(rc != 0, "net:write to a closed session succeeds", "write to a session that is over returned 0"); } }
        else { if (live) app_close(s); else api_close(s); }
    };
    proc->ms = [&](int, void *) { late(); };
    int ticks = 0; static bool sent; sent = false;
    rt::set_idle([&]() {
        if (!sent && saved.count(1001) && mc::choose(2)) { sent = true; api_msg(1, NULL); return true; }
        if (w.idle()) return true;
        if (!sent) { sent = true; api_msg(1, NULL); return true; }
        if (++ticks == 1) return false; api_stop(); return false; });
    api_start(); w.final_check(); finish();
}
// as many clients as the limit allows, and no more; places free up again
static void s_limits() {
    World w; Env env_; w.framing = ns::F_EXT; string p = ns::mk(w.framing, "q");
    static const int mx[] = { 1, 2, 5, 8, 34, 35, 36, 40, 60 };
    int maxc = mx[mc::choose(mc::tier(8, 9))]; int n = maxc + 3 + mc::choose(2) * 3;
    for (int i = 0; i < n; i++) w.add("C", p);
    w.maxclients = maxc; mc::nontrivial();
    w.install();
    if (api_init(maxc) != 0) mc::done();
    int id = api_srv(9000, w.framing, 64, 64, 64, 64);
    if (id < 0) mc::done();     // a table too small for the listener itself may refuse it
    w.srvid = id;
    int mode = mc::choose(3);   // 0 sequential arrivals, 1 all at once, 2 arrivals with departures
    static int open, peak, total; open = peak = total = 0; static int left; left = 0;
    int next = 0, ticks = 0;
    proc->co = [&](StSession &, Sess &, bool) { open++; total++; if (open > peak) peak = open; };
    proc->cl = [&](StSession &, Sess &) { open--; left++; };
    w.batch = false;
    rt::set_idle([&]() {
        if (next < n) { do { ns::Client &k = w.clients[next++]; w.step(k); } while (mode == 1 && next < n);
            if (mode == 2 && next % 3 == 0) { for (size_t i = 0; i < w.clients.size(); i++) { ns::Client &k = w.clients[i]; if (k.c && k.c->fd >= 0 && !k.c->eof) { vk::fin(k.c); w.sess[k.port].peer_fin = true; break; } } }
            return true; }
        if (++ticks == 1) return false; api_stop(); return false; });
    api_start();
    mc::op("maximum %d, %d connection attempts, peak %d, %d admitted", maxc, n, peak, total);
    MC_CHECK(peak <= maxc, "net:client limit exceeded", "%d clients connected at once, limit %d", peak, maxc);
    // descriptors 7.. are available to clients; the table holds 1.2 times the limit
    if (!NW && maxc >= 36 && mode != 2) MC_CHECK(peak == maxc, "net:client limit not reached", "only %d of %d clients admitted", peak, maxc);
    if (!NW && maxc >= 36 && mode == 2) MC_CHECK(total == (n < maxc + left ? n : maxc + left) || total >= n - 1, "net:places not freed", "%d of %d clients admitted although %d left (limit %d)", total, n, left, maxc);
    w.final_check(); finish();
}
static void s_bigpackets() {   // receive buffers smaller than, equal to and above the packet
    World w; Env env_; w.framing = FR[mc::choose(2)];
    int body = 10 + mc::choose(12); size_t tot = ns::mk(w.framing, string(body, 'x')).size();
    string st = ns::mk(w.framing, "s") + ns::mk(w.framing, string(body, 'x')) + ns::mk(w.framing, "t");
    w.add("CS", st); uint32_t rm = 14 + mc::choose(16), ri = 1 + mc::choose(3) * 6;
    if (ri > rm) mc::prune();
    vector<size_t> &cu = w.clients[0].cuts; cu.push_back(3); cu.push_back(ns::mk(w.framing, "s").size() + 1); cu.push_back(st.size() - 2);
    mc::nontrivial(); setup(w, 20, ri, rm, 64, 64);
    bool fits = tot <= rm;
    proc->er = [=](StSession &, Sess *x, int e) { if (fits) mc::fail("net:fitting packet rejected", "packet of %zu bytes rejected (code %d) with a receive limit of %u", tot, e, rm); };
    int ticks = 0; rt::set_idle([&]() { if (w.idle()) return true; if (++ticks == 1) return false; api_stop(); return false; });
    api_start(); w.final_check();
    Sess &s = w.sess[1001];
    if (fits) MC_CHECK(s.pkts.size() == 3, "net:packet lost", "%zu of 3 packets delivered", s.pkts.size());
    else MC_CHECK(s.c->fd < 0 && s.last_err == 4, "net:oversized packet tolerated", "packet of %zu bytes with limit %u: error code %d, fd %d", tot, rm, s.last_err, s.c->fd);
    mc::done();
}
// ---- two servers of different framing and clients of both, interleaved ------
static void s_twoservers() {
    World w; Env env_; int f = mc::choose(5), g = (f + 1 + mc::choose(4)) % 5; w.framing = FR[f]; w.fr[9001] = FR[g];
    string a = ns::mk(FR[f], "a"), b = ns::mk(FR[f], "bcd"), c = ns::mk(FR[g], "e"), d = ns::mk(FR[g], "fgh");
    w.add("C11F", a + b); w.add("C11", c + d, 9001); if (mc::thorough()) w.add("C1R", b, 9000);
    w.clients[0].cuts.push_back(1); w.clients[0].cuts.push_back(a.size() + 1); w.clients[1].cuts.push_back(c.size() - 1); w.clients[1].cuts.push_back(c.size() + 2);
    mc::nontrivial(); mc::set_deviations(mc::tier(2, 2)); setup(w, 20, 10240, 200, 64, 1000);
    int id = api_srv(9001, FR[g], 1, 150, 64, 1000); MC_CHECK(id >= 0 && id != w.srvid, "net:createSrv", "the second server is refused"); w.srvs[9001] = id;
    proc->rd = [](StSession &s, Sess &x) { app_write(s, mc::strf("<%d>", x.id), x.id == 1 && x.pkts.size() == 2); };
    go(w);
}
// ---- output of several sessions, written from each other's handlers, timers and messages
static void s_output_several() {
    World w; Env env_; w.framing = ns::F_RAW; w.faults_send = true;
    w.add("C1", "ab"); w.add("C1", "cd"); if (mc::thorough()) w.add("C", "");
    for (size_t i = 0; i < w.clients.size(); i++) w.clients[i].cuts.push_back(1);
    mc::nontrivial(); mc::set_deviations(mc::tier(2, 3)); static const uint32_t maxs[] = { 1000, 8 }; setup(w, 20, 64, 128, 4, maxs[mc::choose(2)]);
    int from = mc::choose(4), pat = mc::choose(3); static int n, armed; n = armed = 0;
    auto all = [&w, pat](const char *why) { n++; for (size_t i = 0; i < w.clients.size(); i++) { uint16_t p = w.clients[i].port; if (!saved.count(p) || w.sess[p].dead || w.sess[p].want_close) continue; StSession s = saved[p]; bool cl = pat == 1 ? n == 2 : pat == 2 && i == 0; if (cl) w.sess[p].want_close = true; app_write(s, mc::strf("<%s%d.%zu>", why, n, i), cl); } };
    proc->rd = [=](StSession &s, Sess &x) { if (from == 0) all("r"); else if (from == 1) { if (armed < 3) { armed++; api_timer(armed, 2, NULL); } } else if (from == 2) { if (armed < 3) { armed++; api_msg(7, NULL); } } else if (!x.dead) app_write(s, "self", false); };
    proc->co = [=](StSession &s, Sess &x, bool) { if (from == 3) all("c"); };
    proc->tm = [=](int, void *) { all("t"); }; proc->ms = [=](int, void *) { all("m"); };
    static int late; late = 0; int ticks = 0;
    rt::set_idle([&]() { if (w.idle()) return true; if (late < 2 && (ticks || from == 1)) { late++; return false; } if (++ticks == 1) return false; api_stop(); return false; });
    api_start(); w.final_check(); finish();
}
#ifndef USE_NW
// ---- servers removed at any time, from any handler --------------------------
static void s_remove() {
    World w; Env env_; w.framing = ns::F_EXT; string p = ns::mk(w.framing, "q"); w.fr[9001] = ns::F_SHORT; string q = ns::mk(ns::F_SHORT, "z"); w.batch = true;
    w.add("C1F", p + p); w.add(mc::choose(2) ? "C1" : "CR", p); w.add("C1", q, 9001); w.add("C1", p);
    w.clients[0].cuts.push_back(2); for (int i = 1; i < 4; i++) w.clients[i].cuts.push_back(9);
    w.clients[3].script = ""; mc::nontrivial(); mc::set_deviations(mc::tier(1, 2)); setup(w); int a = w.srvid, b = api_srv(9001, ns::F_SHORT, 64, 128, 64, 128); w.srvs[9001] = b; static int removed; removed = 0;
    int where = mc::choose(7), again = mc::choose(3), cli = where < 4 ? mc::choose(2) : 0;   // again: 1: the port is taken over at once, 2: later
    auto anew = [&w]() { if (removed != 1) return; removed = 2; for (int i = 0; i < 2; i++) if (w.clients[i].pc == 0) w.clients[i].script = ""; int id = api_srv(9000, ns::F_EXT, 64, 128, 64, 128); MC_CHECK(id >= 0, "net:createSrv", "the port of a removed server cannot be used again: %s", api_err()); for (int i = 0; i < 2; i++) if (!w.clients[i].c) w.clients[i].script = ""; w.srvs[9500] = id; w.clients[3].script = "C1"; };
    auto rm = [=, &w]() { if (removed) return; removed = 1; mc::op("  rmSrv"); mc::step();
        for (int i = 0; i < 2; i++) { ns::Client &k = w.clients[i]; if (k.c) { k.removed = true; if (w.sess.count(k.port) && !w.sess[k.port].dead) { w.sess[k.port].dead = w.sess[k.port].closed_by_app = true; } } k.script = k.script.substr(0, k.pc); }
        MC_CHECK(mgr->rmSrv(a) == 0, "net:rmSrv", "rmSrv fails"); MC_CHECK(mgr->rmSrv(a) < 0, "net:rmSrv", "rmSrv of a removed server succeeds"); MC_CHECK(!vk::incoming(9000, w.ip, 4000), "net:rmSrv", "the port of a removed server is open");
        MC_CHECK(mgr->setProcessor(a, cproc, PKG_RAW) < 0, "net:rmSrv", "setProcessor of a removed server succeeds");
        for (int i = 0; i < 2; i++) { ns::Client &k = w.clients[i]; if (k.c) MC_CHECK(k.c->fd < 0, "net:descriptor leak", "the server is removed and its connection %u open", k.port); if (saved.count(k.port)) { StSession s = saved[k.port]; MC_CHECK(api_write(s, "x", 1, false) != 0, "net:write to a closed session succeeds", "write to a session of a removed server returned 0"); api_close(s); } }
        if (again == 1) anew(); };
    auto at = [=](int k, int id) { if (where == k && (id == cli || k >= 4)) rm(); };
    proc->co = [=](StSession &, Sess &x, bool) { at(0, x.id); }; proc->rd = [=](StSession &s, Sess &x) { at(x.id == 2 ? 4 : 1, x.id); if (!x.dead) app_write(s, "re", false); };
    proc->cl = [=](StSession &s, Sess &x) { at(2, x.id); api_close(s); }; proc->er = [=](StSession &, Sess *x, int) { if (x) at(3, x->id); };
    proc->ms = [=](int, void *) { rm(); }; proc->tm = [=](int, void *) { rm(); };
    // clients of the new server: it has another id on the same port
    w.exact_srv = true; static bool sent; sent = false; int ticks = 0;
    rt::set_idle([&]() { if (removed == 2) w.srvs[9000] = w.srvs[9500];
        if (where >= 5 && !sent && mc::choose(2)) { sent = true; if (where == 5) api_msg(1, NULL); else { api_timer(1, 1, NULL); } return where == 5; }
        if (w.idle()) return true;
        if (removed == 1 && again == 2) { anew(); w.srvs[9000] = w.srvs[9500]; return true; }
        if (++ticks == 1) return false; api_stop(); return false; });
    api_start(); w.final_check(); finish();
}
#endif
#ifdef SPACES_SIG
// ---- signals while the loop works ------------------------------------------
static int sgot, ssent, snum; static bool sstop;
static void shoot(int sig) { mc::op("[signal %d]", sig); mc::step(); ssent++; snum = sig; int before = sgot; errno = 12345; raise(sig); MC_CHECK(errno == 12345, "signal:errno", "a signal changes errno of the code it interrupts to %d", errno); MC_CHECK(sgot == before + 1, "signal:not delivered", "signal %d reaches its processor %d times", sig, sgot - before); }
static void s_signals() {
    World w; Env env_; w.framing = ns::F_EXT; w.faults_send = true; w.faults_recv = true; string p = ns::mk(w.framing, "ping");
    w.add("C11F", p + p).cuts.push_back(5); w.add("C1", p); w.clients[0].cuts.push_back(10); w.clients[1].cuts.push_back(5); mc::nontrivial(); mc::set_deviations(mc::tier(2, 3));
    setup(w); CCommMgr::m_pInstance = mgr; sgot = ssent = 0; sstop = mc::choose(2); static int shots; shots = 0;
    proc->sg = [](int s) { sgot++; MC_CHECK(s == snum, "signal:number", "onSignal(%d) for signal %d", s, snum); errno = EBADF; if (sstop && sgot == 2) mgr->stop(); };
    MC_CHECK(mgr->addSigHandler(SIGUSR1, cproc) == 0 && mgr->addSigHandler(SIGUSR2, cproc) == 0, "signal:refused", "addSigHandler fails");
    vk::fault = [&w](const char *c, int fd, size_t n) -> long { bool wait = !strcmp(c, "epoll_wait"); if (shots < 3) { int k = mc::choose_dev(wait ? 3 : 2); if (k) { shots++; shoot(k == 2 ? SIGUSR2 : SIGUSR1); if (wait) return -EINTR; if (!strcmp(c, "recv") || !strcmp(c, "send") || !strcmp(c, "accept")) { if (mc::choose(2)) return -EINTR; } } } return w.fault(c, fd, n); };
    proc->rd = [](StSession &s, Sess &x) { app_write(s, "pong", x.pkts.size() == 2 && x.id == 0); };
    int ticks = 0; rt::set_idle([&]() { if (w.idle()) return true; if (++ticks == 1) return false; api_stop(); return false; });
    api_start(); shots = 99; CCommMgr::m_pInstance = NULL; MC_CHECK(sgot == ssent, "signal:count", "%d of %d signals delivered", sgot, ssent);
    if (!(sstop && sgot >= 2)) w.final_check(); signal(SIGUSR1, SIG_IGN); signal(SIGUSR2, SIG_IGN); mc::done();
}
// which processor a signal goes to
static void s_sigreg() {
    Env env_; mc::nontrivial(); mgr = new CCommMgr; CCommMgr::m_pInstance = mgr; MC_CHECK(mgr->init(10) == 0, "signal:init", "init");
    struct P : CProcessor { int n, last; P() : n(0), last(0) {} void onSignal(int s) { n++; last = s; } } pr[2]; static const int SG[] = { SIGUSR1, SIGUSR2, SIGALRM }; int reg[3] = { -1, -1, -1 };
    for (int i = 0; i < 3; i++) signal(SG[i], SIG_IGN);
    for (int s = 0; s < mc::tier(5, 6); s++) {
        int k = mc::choose(13); if (!k) break; mc::step();
        if (k <= 6) { int i = (k - 1) / 2, j = (k - 1) % 2; mc::op("signal %d to processor %d", SG[i], j); MC_CHECK(mgr->addSigHandler(SG[i], &pr[j]) == 0, "signal:refused", "addSigHandler(%d) fails", SG[i]); reg[i] = j; }
        else if (k <= 9) { int i = k - 7; int n0 = pr[0].n, n1 = pr[1].n; mc::op("signal %d is raised", SG[i]); raise(SG[i]); MC_CHECK(pr[0].n == n0 + (reg[i] == 0) && pr[1].n == n1 + (reg[i] == 1), "signal:delivery", "signal %d (processor %d) reaches %d, %d", SG[i], reg[i], pr[0].n - n0, pr[1].n - n1); if (reg[i] >= 0) MC_CHECK(pr[reg[i]].last == SG[i], "signal:number", "onSignal(%d) for signal %d", pr[reg[i]].last, SG[i]); }
        else if (k == 10) { mc::op("no processor"); MC_CHECK(mgr->addSigHandler(SIGUSR1, NULL) < 0, "signal:null processor", "a null processor is accepted"); }
        else { int b = k == 11 ? SIGKILL : 1000; mc::op("signal %d", b); MC_CHECK(mgr->addSigHandler(b, &pr[0]) < 0, "signal:bad signal accepted", "addSigHandler(%d) reports success although the signal cannot be handled", b); }
        mc::state(mc::hmix(reg[0] * 16 + reg[1] * 4 + reg[2] + 21, pr[0].n * 8 + pr[1].n));
    }
    for (int i = 0; i < 3; i++) signal(SG[i], SIG_IGN); CCommMgr::m_pInstance = NULL; mc::done();
}
#endif
int main(int argc, char **argv) {
    string set = argc > 1 ? argv[1] : "";
    vector<mc::Space> s;
#ifdef SPACES_IN
    s.push_back({ "segmentation-short-head", s_seg_short, false, 0, "every segmentation of 8 streams, short head framing" });
    s.push_back({ "segmentation-long-head", s_seg_long, false, 0, "every segmentation of 7 streams, long head framing" });
    s.push_back({ "segmentation-raw", s_seg_raw, false, 0, "every segmentation, raw" });
    s.push_back({ "segmentation-ext", s_seg_ext, false, 0, "every segmentation, user filter" });
    s.push_back({ "segmentation-http", s_seg_http, false, 0, "all placements of up to 2 (3) cuts, HTTP framing" });
    s.push_back({ "interleaved-clients", s_interleave, false, 0, "arrival orders and event batches of several clients" });
    s.push_back({ "receive-hiccups", s_hiccups, false, 0, "interrupted, empty and short receives at up to 2 (3) points, all framings" });
    s.push_back({ "two-servers", s_twoservers, false, 0, "two servers of different framing with their clients interleaved" });
    s.push_back({ "receive-limits", s_bigpackets, false, 0, "packet sizes around the receive buffer limit" });
#endif
#ifdef SPACES_OUT
    s.push_back({ "output", s_output, false, 0, "send results at every send, write sizes and patterns, buffer limits" });
    s.push_back({ "output-several", s_output_several, false, 0, "writes to all sessions from reads, connects, timers and messages; send results at up to 2 (3) sends" });
#endif
#ifdef SPACES_LIFE
    s.push_back({ "callbacks", s_callbacks, false, 0, "application actions in callbacks with faults" });
    s.push_back({ "lifecycle", s_lifecycle, false, 0, "connects, closes, resets, descriptor reuse, faults" });
    s.push_back({ "registration-failures", s_epollfail, false, 0, "event registration failing at every point" });
    s.push_back({ "stale-sessions", s_stale, false, 0, "sessions used after they ended and their descriptor was reused" });
#ifndef USE_NW
    s.push_back({ "servers-removed", s_remove, false, 0, "rmSrv from every callback, timer, message; port reused; connections in every stage" });
#endif
    s.push_back({ "client-limit", s_limits, false, 0, "connection counts around the limit" });
#endif
#ifdef SPACES_SIG
    s.push_back({ "traffic", s_signals, false, 0, "signals at up to 2 (3) points of the loop's system calls" });
    s.push_back({ "registration", s_sigreg, false, 0, "all sequences of 5 (6) registrations and signals" });
#endif
    return mc::run(argc, argv, s, "client scripts, segmentations, send/recv outcomes and event batches enumerated against the real event loop in a virtual kernel; non-trivial: at least one client connects");
}
