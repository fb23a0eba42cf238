// The event loop (CEvent) itself: descriptor events, timers, messages.
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <map>
#include <vector>
#include <string>
#include "CEvent.h"
#include "mcrt.h"
using namespace std;
using namespace lce;
struct Env { CEvent *e; Env() { rt::begin(); e = NULL; } ~Env() { delete e; rt::end(); } };
static CEvent *ev; static int batchno;

// ---------------------------------------------------------------- descriptors
struct Reg { int mask, idr, idw, born; long dr, dw; Reg() : mask(0), idr(0), idw(0), born(-1), dr(0), dw(0) {} };
static map<int, Reg> regs; static int nextid; static int chan[4][2]; static int nchan; static bool stopped;
static void on_fd(int id, const string &token, int fd, void *d, bool rd);
static bool injected, use_both;
static void on_both(int id, int fd, void *d, bool rd);
static int add(int fd, int type, bool again = true) {
    injected = false;
    int id = ++nextid; bool rd = type == CEvent::EV_READ; string token = mc::strf("token-of-registration-%d", id);
    int rc = ev->addFdEvent(fd, type, [=](int f, void *d) { if (use_both) on_both(id, f, d, rd); else on_fd(id, token, f, d, rd); }, (void *)(long)(id * 10));
    mc::op("  add fd %d %s as #%d -> %d", fd, rd ? "READ" : "WRITE", id, rc); mc::step();
    MC_CHECK(rc == 0 || injected, "event:registration refused", "addFdEvent(fd %d) fails although the kernel accepts", fd);
    if (rc != 0 && again) return add(fd, type, false);     // the application tries once more
    if (rc == 0) { Reg &r = regs[fd]; if (!r.mask) r.born = batchno; r.mask |= type; if (rd) { r.idr = id; r.dr = id * 10; } else { r.idw = id; r.dw = id * 10; } }
    return rc;
}
static void del(int fd, int type) { mc::op("  del fd %d %d", fd, type); ev->delFdEvent(fd, type); Reg &r = regs[fd]; r.mask &= ~type; if (!r.mask) regs.erase(fd); mc::step(); }
static void reopen(int c) {     // close a channel completely and open it again: same descriptor numbers
    if (regs.count(chan[c][0])) del(chan[c][0], 3); if (regs.count(chan[c][1])) del(chan[c][1], 3);
    for (int i = 0; i < 2; i++) if (chan[c][i] >= 0) { close(chan[c][i]); chan[c][i] = -1; }
    if (pipe(chan[c]) != 0) mc::prune();
    mc::op("  channel %d reopened as %d/%d", c, chan[c][0], chan[c][1]);
}
static void on_fd(int id, const string &token, int fd, void *d, bool rd) {
    mc::op("handler #%d fd %d %s", id, fd, rd ? "READ" : "WRITE"); mc::step();
    MC_CHECK(regs.count(fd) && (regs[fd].mask & (rd ? 1 : 2)), "event:handler of a removed registration", "handler #%d of fd %d called after its registration was removed", id, fd);
    Reg r = regs[fd];
    MC_CHECK((rd ? r.idr : r.idw) == id, "event:wrong handler", "fd %d: handler #%d called, registered is #%d", fd, id, rd ? r.idr : r.idw);
    MC_CHECK((long)d == (rd ? r.dr : r.dw), "event:wrong data", "fd %d: handler gets data %ld instead of %ld", fd, (long)d, rd ? r.dr : r.dw);
    uint32_t rdy = vk::fd_ready(fd);
    if (r.born == batchno) MC_CHECK(rdy & (rd ? (EPOLLIN | EPOLLHUP | EPOLLERR) : (EPOLLOUT | EPOLLERR | EPOLLHUP)), "event:stale event", "fd %d: handler #%d called for an event of the descriptor's previous use", fd, id);
    int c = 0; for (int i = 0; i < nchan; i++) if (chan[i][0] == fd || chan[i][1] == fd) c = i;
    int other = (c + 1) % nchan, third = (c + 2) % nchan;
    switch (mc::choose_dev(8)) {
    case 0: if (rd) { char b; int k = read(fd, &b, 1); if (k == 0) { del(fd, 3); close(fd); chan[c][0] = -1; } } else del(fd, CEvent::EV_WRITE); break;
    case 1: del(fd, rd ? 1 : 2); break;
    case 2: if (regs.count(chan[other][0])) del(chan[other][0], 3); break;
    case 3: add(fd, rd ? 1 : 2); MC_CHECK(token == mc::strf("token-of-registration-%d", id), "event:handler destroyed while running", "handler #%d loses its state when it replaces itself", id); if (rd) { char b; read(fd, &b, 1); } else del(fd, 2); break;
    case 4: if (chan[other][1] >= 0) add(chan[other][1], 2); if (rd) { char b; read(fd, &b, 1); } else if (fd != chan[other][1]) del(fd, 2); break;
    case 5: reopen(c); add(chan[c][0], 1); break;
    case 6: reopen(other); add(chan[other][0], 1); if (rd) { char b; read(fd, &b, 1); } else del(fd, 2); break;
    case 7: reopen(other); reopen(third == c ? other : third); add(chan[other][0], 1); add(chan[other][1], 2); if (rd) { char b; read(fd, &b, 1); } else del(fd, 2); break;
    }
    MC_CHECK(token == mc::strf("token-of-registration-%d", id), "event:handler destroyed while running", "handler #%d loses its state while it runs", id);
}
static void s_fd() {
    Env e; e.e = ev = new CEvent; regs.clear(); nextid = 0; batchno = 0; stopped = false; use_both = false; static int left; left = mc::tier(3, 4); vk::pipe_capacity = 3;
    vk::on_misuse = [](const char *w, int fd) { mc::fail("event:descriptor misuse", "%s on descriptor %d that is not open", w, fd); };
    bool fail_ctl = mc::choose(2);
    vk::fault = [=](const char *c, int fd, size_t op) -> long { if (!strcmp(c, "epoll_wait")) { batchno++; uint64_t h = 5; for (map<int, Reg>::iterator i = regs.begin(); i != regs.end(); ++i) h = mc::hmix(h, i->first * 64 + i->second.mask * 16 + vk::fd_ready(i->first)); mc::state(h); } if (fail_ctl && batchno && !strcmp(c, "epoll_ctl") && mc::choose_dev(2)) { injected = true; mc::op("  [epoll_ctl fails]"); return -ENOSPC; } return 0; };
    MC_CHECK(ev->init(64) == 0, "event:init", "init fails");
    nchan = 3; for (int i = 0; i < nchan; i++) if (pipe(chan[i]) != 0) mc::prune();
    MC_CHECK(ev->addFdEvent(64, 1, [](int, void *) {}, NULL) < 0 && ev->addFdEvent(-1, 1, [](int, void *) {}, NULL) < 0, "event:bad descriptor accepted", "a descriptor outside the table is accepted");
    mc::nontrivial(); mc::set_deviations(mc::tier(2, 3));
    for (int i = 0; i < nchan; i++) { int k = mc::choose(i == 2 ? 2 : 3); if (k > 0) add(chan[i][0], 1); if (k == 2) add(chan[i][1], 2); }
    rt::set_idle([]() {
        for (map<int, Reg>::iterator i = regs.begin(); i != regs.end(); ++i) { uint32_t r = vk::fd_ready(i->first); MC_CHECK(!((i->second.mask & 1) && (r & (EPOLLIN | EPOLLHUP))) && !((i->second.mask & 2) && (r & EPOLLOUT)), "event:event lost", "fd %d is ready and registered, but the loop sleeps", i->first); }
        if (left-- > 0) {
            int n = 0; int k = mc::choose(nchan + 2);
            for (int i = 0; i < nchan; i++) if (k == i || k == nchan) { if (vk::is_open(chan[i][1]) && vk::fd_ready(chan[i][1]) & EPOLLOUT) { write(chan[i][1], "x", 1); n++; } }
            if (k == nchan + 1) { if (vk::is_open(chan[0][1])) { if (regs.count(chan[0][1])) del(chan[0][1], 3); close(chan[0][1]); chan[0][1] = -1; mc::op("writer of channel 0 closed"); } }
            if (n) mc::op("data on channel %s", k == nchan ? "all" : mc::strf("%d", k).c_str());
            return true;
        }
        if (!stopped) { stopped = true; ev->stop(); return false; }
        return false;
    });
    ev->run();
    MC_CHECK(stopped, "event:loop ends by itself", "run() returned although nobody stopped it");
    mc::done();
}

// connections, where both directions of one descriptor are watched
static vk::Conn *cn[2]; static int wire_[2]; static int quietwaits; static bool touched[2];
static void both_idle_check() { for (map<int, Reg>::iterator i = regs.begin(); i != regs.end(); ++i) { uint32_t r = vk::fd_ready(i->first); MC_CHECK(!((i->second.mask & 1) && (r & (EPOLLIN | EPOLLHUP))) && !((i->second.mask & 2) && (r & EPOLLOUT)), "event:event lost", "fd %d is ready (%x) and watched (%d), but the loop sleeps", i->first, r, i->second.mask); } }
static int which(int fd) { return wire_[0] == fd ? 0 : 1; }
static void fill(int c) { char b[8] = { 0 }; while (send(wire_[c], b, 1, 0) == 1) ; mc::op("  output of connection %d filled", c); touched[c] = true; }
static void drink(int c) { char b[8]; int k; while ((k = recv(wire_[c], b, 8, 0)) > 0) ; if (k == 0 && regs.count(wire_[c]) && (regs[wire_[c]].mask & 1)) del(wire_[c], 1); mc::op("  input of connection %d read", c); touched[c] = true; }
static void on_both(int id, int fd, void *d, bool rd) {
    mc::op("handler #%d fd %d %s", id, fd, rd ? "READ" : "WRITE"); mc::step(); quietwaits = 0;
    MC_CHECK(regs.count(fd) && (regs[fd].mask & (rd ? 1 : 2)), "event:handler of a removed registration", "handler #%d of fd %d called after its registration was removed", id, fd);
    Reg r = regs[fd]; MC_CHECK((rd ? r.idr : r.idw) == id && (long)d == id * 10, "event:wrong handler", "fd %d: handler #%d called with data %ld, registered is #%d", fd, id, (long)d, rd ? r.idr : r.idw);
    int c = which(fd); uint32_t rdy = vk::fd_ready(fd); MC_CHECK(touched[c] || (rdy & (rd ? (EPOLLIN | EPOLLHUP | EPOLLERR) : (EPOLLOUT | EPOLLHUP | EPOLLERR))), "event:stale event", "fd %d: %s handler called although the descriptor is not ready", fd, rd ? "read" : "write");
    int o = 1 - c; int k = mc::choose_dev(9);
    if (k == 0) { if (rd) drink(c); else fill(c); }
    else if (k == 1) del(fd, rd ? 1 : 2);
    else if (k == 2) { del(fd, rd ? 2 : 1); if (rd) drink(c); else fill(c); }
    else if (k == 3) del(fd, 3);
    else if (k == 4) { if (regs.count(wire_[o])) del(wire_[o], 1); if (rd) drink(c); else fill(c); }
    else if (k == 5) { if (regs.count(wire_[o])) del(wire_[o], 2); if (rd) drink(c); else fill(c); }
    else if (k == 6) { add(wire_[o], 1); if (rd) drink(c); else fill(c); }
    else if (k == 7) { add(wire_[o], 2); if (rd) drink(c); else fill(c); }
    else { del(fd, rd ? 1 : 2); add(fd, rd ? 2 : 1); touched[c] = true; }
}
static void s_both() {
    Env e; e.e = ev = new CEvent; regs.clear(); nextid = 0; batchno = 0; stopped = false; quietwaits = 0; static int left; left = mc::tier(2, 4); use_both = true;
    vk::on_misuse = [](const char *w, int fd) { mc::fail("event:descriptor misuse", "%s on descriptor %d that is not open", w, fd); };
    MC_CHECK(ev->init(64) == 0, "event:init", "init fails");
    int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(7000); if (bind(l, (sockaddr *)&a, sizeof a) != 0 || listen(l, 5) != 0) mc::prune();
    for (int i = 0; i < 2; i++) { cn[i] = vk::incoming(7000, 0x0a000001, 100 + i); wire_[i] = accept(l, 0, 0); fcntl(wire_[i], F_SETFL, O_NONBLOCK); vk::set_wnd(cn[i], 2); touched[i] = false; }
    vk::fault = [](const char *c, int, size_t) -> long { if (!strcmp(c, "epoll_wait")) { batchno++; touched[0] = touched[1] = false; uint64_t h = 9; for (map<int, Reg>::iterator i = regs.begin(); i != regs.end(); ++i) h = mc::hmix(h, i->first * 64 + i->second.mask * 16 + vk::fd_ready(i->first)); mc::state(h); MC_CHECK(++quietwaits < 6, "event:busy loop", "the loop wakes up again and again without a handler to call"); } return 0; };
    mc::nontrivial(); mc::set_deviations(mc::tier(2, 3));
    for (int i = 0; i < 2; i++) { int k = mc::choose(4); if (k & 1) add(wire_[i], 1); if (k & 2) add(wire_[i], 2); }
    rt::set_idle([]() {
        both_idle_check(); quietwaits = 0;
        if (left-- > 0) {
            int k = mc::choose(7); int c = k / 3;
            if (k == 6) { for (int i = 0; i < 2; i++) { vk::deliver(cn[i], "x"); vk::set_wnd(cn[i], cn[i]->wnd + 1); } mc::op("data and room on both"); }
            else if (k % 3 == 0) { vk::deliver(cn[c], "x"); mc::op("data on connection %d", c); }
            else if (k % 3 == 1) { vk::set_wnd(cn[c], cn[c]->wnd + 1); mc::op("room on connection %d", c); }
            else { vk::fin(cn[c]); mc::op("end of data on connection %d", c); if (regs.count(wire_[c])) { del(wire_[c], 3); } }
            return true;
        }
        if (!stopped) { stopped = true; ev->stop(); return false; }
        return false;
    });
    ev->run();
    MC_CHECK(stopped, "event:loop ends by itself", "run() returned although nobody stopped it");
    mc::done();
}

// --------------------------------------------------------------------- timers
struct Tm { uint64_t at; long data; int id; uint64_t added; };
static map<int, Tm> timers; static int tops; static uint64_t lastfire; static int fires; static bool tstop; static uint64_t seqno, slow;
static uint64_t ms() { return rt::now_us / 1000; }
static void tm_add(int id, uint32_t d);
static void on_timer(int id, long data) {
    mc::op("timer %d fires (data %ld) at +%llu ms", id, data, (unsigned long long)(ms() - 1700000000000ULL)); mc::step(); fires++;
    MC_CHECK(timers.count(id), "timer:fires after it was removed", "timer %d fires although it was deleted, replaced or has fired", id);
    Tm t = timers[id]; timers.erase(id);
    MC_CHECK(t.data == data, "timer:wrong data", "timer %d fires with data %ld instead of %ld", id, data, t.data);
    MC_CHECK(ms() >= t.at, "timer:early", "timer %d fires %llu ms early", id, (unsigned long long)(t.at - ms()));
    MC_CHECK(ms() <= max(t.at, lastfire) + slow, "timer:late", "timer %d fires %llu ms late although nothing else kept the loop busy", id, (unsigned long long)(ms() - t.at));
    for (map<int, Tm>::iterator i = timers.begin(); i != timers.end(); ++i) MC_CHECK(i->second.at >= t.at, "timer:out of order", "timer %d (due +%llu) fires before timer %d (due +%llu)", id, (unsigned long long)t.at, i->first, (unsigned long long)i->second.at);
    if (mc::choose_dev(2)) { rt::now_us += 7000; slow += 7; mc::op("  (the handler takes 7 ms)"); }   // the next wait may start from the time before it
    lastfire = ms();
    int k = tops > 0 ? mc::choose(5) : 0;
    if (tops-- > 0) {
        if (k == 1) tm_add(id, 5); else if (k == 2) tm_add((id + 1) % 3, 3); else if (k == 3) { int o = (id + 1) % 3; mc::op("  delete timer %d", o); ev->delTimer(o); timers.erase(o); } else if (k == 4) { tm_add((id + 2) % 3, 5); int o = (id + 1) % 3; ev->delTimer(o); timers.erase(o); }
    }
}
static void tm_add(int id, uint32_t d) {
    Tm t; t.at = ms() + d; t.data = ++seqno; t.id = id; t.added = ms(); long data = t.data; timers[id] = t; mc::step();
    mc::op("  add timer %d in %u ms (data %ld)", id, d, data);
    MC_CHECK(ev->addTimer(id, d, [id](int i, void *p) { MC_CHECK(i == id, "timer:wrong id", "handler of timer %d called with id %d", id, i); on_timer(i, (long)p); }, (void *)data) == 0, "timer:refused", "addTimer fails");
}
static void timer_idle() {
    rt::set_idle([]() {
        // the loop sleeps: nothing may be due
        uint64_t h = 3; for (map<int, Tm>::iterator i = timers.begin(); i != timers.end(); ++i) { MC_CHECK(i->second.at + slow > ms(), "timer:overdue", "timer %d is due but the loop sleeps", i->first); h = mc::hmix(h, i->first * 1000003ull + (i->second.at - ms())); } mc::state(h);
        if (timers.empty() && !tstop) { tstop = true; ev->stop(); return false; }
        return false;
    });
}
static void s_timer() {
    Env e; e.e = ev = new CEvent; timers.clear(); tops = mc::tier(3, 3); lastfire = 0; fires = 0; tstop = false; seqno = 0; slow = 0; rt::now_us += 300; 
    MC_CHECK(ev->init(64) == 0, "event:init", "init fails"); mc::set_deviations(1);
    static const uint32_t D[] = { 5, 3, 8, 0 };
    int n = 0;
    for (int s = 0; s < mc::tier(2, 3); s++) { int k = mc::choose(1 + 3 * 4 + 3); if (k == 0) break; if (k <= 12) { tm_add((k - 1) / 4, D[(k - 1) % 4]); n++; } else { int id = k - 13; mc::op("  delete timer %d", id); ev->delTimer(id); timers.erase(id); } if (n && mc::choose(2)) rt::now_us += 1700; }
    if (n > 1) mc::nontrivial();
    lastfire = ms(); timer_idle();
    ev->run();
    MC_CHECK(timers.empty(), "timer:lost", "%zu timers never fired", timers.size());
    mc::done();
}
// several timers due at the same moments; deletions and replacements before the loop or in a handler
static int bulk_id;
static void bulk_ops() {
    for (int k = 0; k < mc::tier(2, 3); k++) {
        int o = mc::choose(1 + 4 * 3); if (!o) break; int id = 1 + (o - 1) / 3;
        if ((o - 1) % 3 == 0) { mc::op("  delete timer %d", id); ev->delTimer(id); timers.erase(id); } else tm_add(id, (o - 1) % 3 == 1 ? 5 : 8);
    }
}
static void s_timer_same() {
    Env e; e.e = ev = new CEvent; timers.clear(); tops = 0; lastfire = 0; fires = 0; tstop = false; seqno = 0; slow = 0; rt::now_us += 300;
    MC_CHECK(ev->init(64) == 0, "event:init", "init fails"); mc::set_deviations(0); mc::nontrivial();
    int where = mc::choose(2);
    for (int i = 1; i <= 4; i++) tm_add(i, mc::choose(2) ? 8 : 5);
    if (where == 0) bulk_ops();
    else ev->addTimer(9, 0, [](int, void *) { mc::op("timer 9 fires"); bulk_ops(); }, NULL);
    lastfire = ms(); timer_idle();
    ev->run();
    MC_CHECK(timers.empty(), "timer:lost", "%zu timers never fired", timers.size());
    mc::done();
}
// delays over the whole range of the parameter
static void s_timer_long() {
    Env e; e.e = ev = new CEvent; timers.clear(); tops = 0; lastfire = 0; tstop = false; seqno = 0; slow = 0; rt::max_steps = 5000000;
    MC_CHECK(ev->init(64) == 0, "event:init", "init fails"); mc::nontrivial();
    static const uint32_t D[] = { 1, 2999, 3000, 3001, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu };
    int a = mc::choose(11), b = mc::choose(11); tm_add(0, D[a]); tm_add(1, D[b]);
    lastfire = ms();
    static int waits; waits = 0; vk::fault = [](const char *c, int, size_t) -> long { if (!strcmp(c, "epoll_wait")) if (++waits > 1000000) mc::fail("timer:busy loop", "the loop polls without sleeping"); return 0; };
    timer_idle();
    ev->run();
    MC_CHECK(timers.empty(), "timer:lost", "timers never fired"); mc::done();
}

// ------------------------------------------------------------------- messages
struct Msg { int type; long data; };
static vector<Msg> posted, got; static int looptid; static int selfposts;
static long failing; // a message whose wake-up write fails
static void post(int type, long data);
static void on_msg(int type, long data) {
    { rt::Quiet q;
    mc::op("message %d/%ld delivered", type, data); mc::step();
    MC_CHECK(rt::self() == looptid, "message:wrong thread", "message %d handled outside the loop thread", type);
    size_t n = got.size(); Msg m = { type, data }; got.push_back(m);
    (void)n;
    // each message of one sender in order, none twice
    for (size_t i = 0; i + 1 < got.size(); i++) { MC_CHECK(got[i].data != data, "message:delivered twice", "message %ld delivered twice", data); MC_CHECK(got[i].data / 100 != data / 100 || got[i].data < data, "message:out of order", "message %ld delivered after message %ld of the same sender", data, got[i].data); }
    bool known = false; for (size_t i = 0; i < posted.size(); i++) if (posted[i].data == data && posted[i].type == type) known = true;
    MC_CHECK(known, "message:corrupted", "message type %d data %ld was never sent", type, data); }
    if (selfposts > 0) { selfposts--; post(7, 900 + 10 - selfposts); }
}
static void post(int type, long data) {
    { rt::Quiet q; Msg m = { type, data }; posted.push_back(m); mc::op("thread %d sends %d/%ld", rt::self(), type, data); }
    if (data == failing) vk::fault = [](const char *c, int, size_t) -> long { if (!strcmp(c, "write")) { vk::fault = nullptr; return -EIO; } return 0; };
    int rc = ev->addMessage(type, [type](int t, void *p) { on_msg(t, (long)p); if (t != type) mc::fail("message:wrong type", "handler of type %d called with %d", type, t); }, (void *)data);
    rt::Quiet q; if (rc != 0) { if (data != failing) mc::fail("message:refused", "addMessage returned %d", rc); for (size_t i = 0; i < posted.size(); i++) if (posted[i].data == data) { posted.erase(posted.begin() + i); break; } failing = -1; mc::op("  refused"); }
}
static void s_msg() {
    Env e; e.e = ev = new CEvent; posted.clear(); got.clear(); looptid = -1; selfposts = mc::choose(3); batchno = 0;
    static const int caps[] = { 65536, 1, 2 }; vk::pipe_capacity = caps[mc::choose(3)];
    rt::race_detect(true);
    MC_CHECK(ev->init(64) == 0, "event:init", "init fails");
    rt::race_ignore(ev, 0);
    int senders = mc::tier(2, 2), per = 2; bool before = mc::choose(2);
    mc::nontrivial(); mc::set_deviations(mc::tier(2, 3));
    failing = -1; if (vk::pipe_capacity == 65536 && selfposts == 0 && mc::choose(2)) failing = before ? 800 : -1;
    if (before) post(1, 800);
    if (failing == 800) mc::fail("message:refused", "a failing write goes unnoticed");
    int lt = rt::spawn([]() { looptid = rt::self(); ev->run(); }, "loop");
    vector<int> t;
    for (int i = 0; i < senders; i++) t.push_back(rt::spawn([i, per]() { for (int k = 0; k < per; k++) post(i + 1, (i + 1) * 100 + k); }, "sender"));
    rt::set_deadlock([]() { string b = rt::blocked_report(); mc::fail("message:deadlock", "sender or loop blocked for ever\n%s", b.c_str()); });
    static bool st; st = false;
    for (size_t i = 0; i < t.size(); i++) rt::join(t[i]);
    rt::set_idle([]() { if (!st && got.size() == posted.size()) { st = true; ev->stop(); return false; } if (!st) { mc::fail("message:lost", "%zu of %zu messages delivered and the loop sleeps", got.size(), posted.size()); } return false; });
    rt::join(lt);
    MC_CHECK(got.size() == posted.size(), "message:lost", "%zu of %zu messages delivered", got.size(), posted.size());
    mc::done();
}
// timers, messages and descriptors at once: nobody starves, each exactly once; stop and resume
static void s_mixed() {
    Env e; e.e = ev = new CEvent; posted.clear(); got.clear(); looptid = 0; selfposts = 0; timers.clear(); tops = 0; lastfire = 0; seqno = 0; regs.clear(); nextid = 0; batchno = 0; nchan = 1;
    MC_CHECK(ev->init(64) == 0, "event:init", "init fails"); mc::nontrivial();
    static int rd, rounds, lim; rd = 0; rounds = 0; lim = 0; static int P[2]; if (pipe(P)) mc::prune();
    static int stopat, ops; stopat = mc::choose(8); ops = 0;
    auto tick = []() { ops++; if (ops == stopat) { mc::op("  stop"); ev->stop(); } };
    ev->addFdEvent(P[0], CEvent::EV_READ, [tick](int fd, void *) { char b; if (read(fd, &b, 1) == 1) { rd++; mc::op("byte %d read", rd); } tick(); }, NULL);
    static const int N = 3; static int done[3]; done[0] = done[1] = done[2] = 0; static int sent[3]; sent[0] = sent[1] = sent[2] = 0;
    for (int s = 0; s < 4; s++) { int k = mc::choose(3); sent[k]++; mc::step();
        if (k == 0) { write(P[1], "x", 1); mc::op("byte written"); }
        else if (k == 1) { int id = s; mc::op("timer %d", id); ev->addTimer(id, mc::choose(2) * 4, [tick](int i, void *) { done[1]++; mc::op("timer %d fires", i); tick(); }, NULL); }
        else { mc::op("message"); ev->addMessage(s, [tick](int, void *) { done[2]++; mc::op("message delivered"); tick(); }, NULL); } }
    static bool st; st = false;
    rt::set_idle([]() { if (!st && rd == sent[0] && done[1] == sent[1] && done[2] == sent[2]) { st = true; ev->stop(); } return false; });
    static uint64_t t0; t0 = rt::now_us;
    rt::set_deadlock([]() { mc::fail("event:stuck", "the loop waits for ever"); });
    vk::fault = [](const char *c, int, size_t) -> long { if (!strcmp(c, "epoll_wait") && rt::now_us - t0 > 20 * 1000000ULL) mc::fail("event:work lost", "bytes %d/%d timers %d/%d messages %d/%d after 20 s", rd, sent[0], done[1], sent[1], done[2], sent[2]); return 0; };
    int runs = 0;
    do { int before = ops; ev->run(); runs++; if (stopat > 0 && ops >= stopat && runs == 1) MC_CHECK(rt::now_us - t0 <= 4000000ULL, "event:stop ignored", "run() returned only %llu ms after stop()", (unsigned long long)(rt::now_us - t0) / 1000); (void)before; } while (!(rd == sent[0] && done[1] == sent[1] && done[2] == sent[2]) && runs < 5);
    MC_CHECK(rd == sent[0] && done[1] == sent[1] && done[2] == sent[2], "event:work lost", "bytes %d/%d timers %d/%d messages %d/%d when run() ended", rd, sent[0], done[1], sent[1], done[2], sent[2]);
    mc::done();
}
int main(int argc, char **argv) {
    vector<mc::Space> s;
#ifdef SP_TIMER
    s.push_back({ "timers", s_timer, false, 0, "all sequences of timer operations before and inside handlers" });
    s.push_back({ "timers-together", s_timer_same, false, 0, "four timers on two deadlines, deletions and replacements before the loop and in a handler" });
    s.push_back({ "timer-range", s_timer_long, false, 0, "all pairs of boundary delays" });
    s.push_back({ "mixed", s_mixed, false, 0, "timers, messages and descriptor events together, stop at every point and resume" });
#endif
#ifdef SP_FD
    s.push_back({ "descriptor-events", s_fd, false, 0, "registrations changed by handlers, environment events, registration failures, descriptor reuse" });
    s.push_back({ "both-directions", s_both, false, 0, "two connections watched for reading and writing, registrations of either direction added and removed" });
#endif
#ifdef SP_MSG
    s.push_back({ "messages", s_msg, false, 0, "all interleavings of senders and loop up to the preemption bound, pipe capacities 1, 2, 64k" });
#endif
    return mc::run(argc, argv, s, "operations on the real event loop enumerated against a reference model in virtual time; non-trivial: something is registered or sent");
}
