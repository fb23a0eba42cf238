// Timers and messages of the managers (CCommMgr, CNetWorker): they reach the
// processor they name, with id, type and data, once and in time.
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <map>
#include <vector>
#include <deque>
#include <string>
#include <functional>
#ifdef USE_NW
#include "CNetWorker.h"
#else
#include "CCommMgr.h"
#endif
#include "netsim.h"
using namespace std;
using namespace lce;
ns::World *ns::W;
struct Tm { uint64_t at; long data; int to; };
struct Ms { int type, to; long data; };
static map<int, Tm> timers; static map<int, deque<Ms> > queues; // by sending thread
static uint64_t slow, lastfire; static long seqno; static int budget, looptid; static size_t undelivered; static bool stopping; static uint32_t one;
static uint64_t ms() { return rt::now_us / 1000; }
static void acts(int self);
static void fired(int who, int id, void *p) {
    long data = (long)p; mc::op("timer %d fires at processor %d (data %ld)", id, who, data); mc::step();
    MC_CHECK(rt::self() == looptid, "tm:thread", "onTimer on another thread");
    MC_CHECK(timers.count(id), "tm:timer twice or after deletion", "timer %d fires although it was deleted, replaced or has fired", id); Tm t = timers[id]; timers.erase(id);
    MC_CHECK(t.to == who, "tm:wrong processor", "timer %d of processor %d reaches processor %d", id, t.to, who); MC_CHECK(t.data == data, "tm:wrong data", "timer %d has data %ld instead of %ld", id, data, t.data);
    MC_CHECK(ms() >= t.at, "tm:early", "timer %d fires %llu ms early", id, (unsigned long long)(t.at - ms())); MC_CHECK(ms() <= max(t.at, lastfire) + slow + 1, "tm:late", "timer %d fires %llu ms late", id, (unsigned long long)(ms() - t.at));
    for (map<int, Tm>::iterator i = timers.begin(); i != timers.end(); ++i) MC_CHECK(i->second.at >= t.at, "tm:order", "timer %d fires before timer %d which is due earlier", id, i->first);
    lastfire = ms(); acts(who);
}
static void told(int who, int type, void *p) {
    long data = (long)p; { rt::Quiet z; mc::op("message %d at processor %d (data %ld)", type, who, data); mc::step(); MC_CHECK(rt::self() == looptid, "tm:thread", "onMessage on another thread");
    bool ok = false; for (map<int, deque<Ms> >::iterator i = queues.begin(); i != queues.end(); ++i) if (i->second.size() && i->second.front().data == data) { Ms m = i->second.front(); i->second.pop_front(); MC_CHECK(m.type == type, "tm:wrong type", "message of type %d arrives as %d", m.type, type); MC_CHECK(m.to == who, "tm:wrong processor", "message of processor %d reaches processor %d", m.to, who); ok = true; undelivered--; break; }
    MC_CHECK(ok, "tm:message", "message with data %ld is not the next of any sender", data); }
    acts(who);
}
static const int TYPES[] = { 0, 7, -3, 0x7fffffff };
#ifdef USE_NW
struct Wk : CNetWorker { int init() { return 0; } void onTimer(int id, void *p) { fired(0, id, p); } void onMessage(int t, void *p) { told(0, t, p); } void onRead(StSession &, const char *, const int) {  } void onConnect(StSession &, bool, void *) {} void onClose(StSession &) {} void onError(StSession &, const char *, int) {} };
static Wk *M;
static int addT(int id, uint32_t d, int, long data) { return data ? M->addTimer(id, d, (void *)data) : M->addTimer(id, d); }
static int sendM(int type, int, long data) { return data ? M->sendMessage(type, (void *)data) : M->sendMessage(type); }
static const int NP = 1;
#else
static CCommMgr *M;
struct P : CProcessor { int me; void onTimer(int id, void *p) { fired(me, id, p); } void onMessage(int t, void *p) { told(me, t, p); } void onRead(StSession &, const char *, const int) {  } void onConnect(StSession &, bool, void *) {} void onClose(StSession &) {} void onError(StSession &, const char *, int) {} };
static P procs[2];
static int addT(int id, uint32_t d, int to, long data) { return data ? M->addTimer(id, d, &procs[to], (void *)data) : M->addTimer(id, d, &procs[to]); }
static int sendM(int type, int to, long data) { return data ? M->sendMessage(type, &procs[to], (void *)data) : M->sendMessage(type, &procs[to]); }
static const int NP = 2;
#endif
static void add(int id, uint32_t d, int to) { Tm t; t.at = ms() + d; t.data = (one++ == 0 ? 0 : ++seqno); t.to = to; timers[id] = t; mc::op("  add timer %d in %u ms for processor %d, data %ld", id, d, to, t.data); MC_CHECK(addT(id, d, to, t.data) == 0, "tm:refused", "addTimer fails"); }
static void del(int id) { mc::op("  delete timer %d", id); timers.erase(id); M->delTimer(id); }
static void post(int type, int to) { long data; { rt::Quiet z; data = (one++ == 0 ? 0 : ++seqno); Ms m = { type, to, data }; queues[rt::self()].push_back(m); undelivered++; mc::op("  send message %d to processor %d, data %ld", type, to, data); } MC_CHECK(sendM(type, to, data) == 0, "tm:refused", "sendMessage fails"); }
static void act(int k, int self) { // NP 2: 0..10, NP 1: the processor is always 0
    if (k < 4) add(1 + k / 2, k % 2 ? 4 : 0, (self + k / 2) % NP); else if (k == 4) add(1, 6, self % NP); else if (k < 7) del(k - 4); else if (k < 9) post(TYPES[k - 7], (self + k) % NP); else if (k == 9) { post(TYPES[2], 0); post(TYPES[3], NP - 1); }
    else { mc::op("  stop"); stopping = true; 
#ifdef USE_NW
        M->m_oEvent.stop();
#else
        M->stop();
#endif
    }
}
static void acts(int self) { if (budget <= 0) return; int k = mc::choose(12); if (k == 0) return; budget--; act(k - 1, self); }
static uint64_t statehash() { uint64_t h = undelivered * 64; for (map<int, Tm>::iterator i = timers.begin(); i != timers.end(); ++i) h = mc::hmix(h, i->first * 1000 + (i->second.at - ms())); return mc::hmix(h, budget); }
static void world(bool first = false) {
    rt::begin(); timers.clear(); queues.clear(); slow = 0; lastfire = 0; seqno = 0; undelivered = 0; stopping = false; one = first ? mc::choose(2) : 1; looptid = rt::self(); rt::now_us += 300;
#ifdef USE_NW
    M = new Wk; MC_CHECK(((CNetWorker *)M)->init(20) == 0, "tm:init", "init fails");
#else
    M = &CCommMgr::getInstance(); procs[0].me = 0; procs[1].me = 1; MC_CHECK(M->init(20) == 0, "tm:init", "init fails: %s", M->getErrMsg());
    errno = 0; MC_CHECK(M->addTimer(5, 0, NULL) < 0, "tm:null processor", "a timer for no processor is accepted"); MC_CHECK(M->sendMessage(5, NULL) < 0, "tm:null processor", "a message for no processor is accepted");
#endif
    mc::nontrivial();
    rt::set_idle([]() { for (map<int, Tm>::iterator i = timers.begin(); i != timers.end(); ++i) MC_CHECK(i->second.at + slow + 1 > ms(), "tm:overdue", "timer %d is due but the loop sleeps", i->first); MC_CHECK(undelivered == 0 || stopping, "tm:message lost", "%zu messages wait and the loop sleeps", undelivered); mc::state(statehash()); if (timers.empty() && !stopping) { stopping = true;
#ifdef USE_NW
        M->m_oEvent.stop();
#else
        M->stop();
#endif
    } return false; });
}
static void loop() { for (int r = 0; r < 12; r++) { stopping = false; mc::op("run"); lastfire = ms();
#ifdef USE_NW
        M->run();
#else
        M->start();
#endif
        MC_CHECK(stopping, "tm:loop ends", "the loop ends without stop()"); if (timers.empty() && !undelivered) return; }
    mc::fail("tm:work lost", "%zu timers, %zu messages are never handled", timers.size(), undelivered);
}
static void fin() { rt::set_idle(nullptr);
#ifdef USE_NW
    delete M;
#else
    delete M; CCommMgr::m_pInstance = NULL;
#endif
    rt::end(); }
// operations before the loop and in the handlers
static void s_ops() { world(true); budget = 2; int n = mc::tier(3, 4); for (int i = 0; i < n; i++) { int k = mc::choose(11); if (!k) break; act(k - 1, 0); if (i == 0 && mc::choose(2)) rt::now_us += 2000; } loop(); fin(); }
// messages from another thread while the loop runs, with timers and messages of its own
static void s_threads() { world(); mc::set_deviations(mc::tier(2, 3)); budget = 1; int a = mc::choose(5); if (a) act(a == 1 ? 0 : a == 2 ? 1 : a == 3 ? 7 : 9, 0); for (int i = 0; i < 2; i++) rt::spawn([i]() { for (int j = 0; j < 2; j++) post(TYPES[(i + j) % 4], i % NP); }, "sender"); loop(); loop(); fin(); }
int main(int argc, char **argv) { vector<mc::Space> s;
    s.push_back({ "operations", s_ops, false, 0, "timers added, replaced and deleted and messages sent before the loop and in handlers, stop and run again" });
    s.push_back({ "threads", s_threads, false, 0, "messages from two other threads while the loop runs" });
    return mc::run(argc, argv, s, "operations on the managers' timers and messages against a model; non-trivial: always"); }
