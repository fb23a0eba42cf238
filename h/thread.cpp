// CThread and CSingleton.
#include <string>
#include <unistd.h>
#include "CThread.h"
#include "CSingleton.h"
#include "mcrt.h"
#include "mc.h"
using namespace lce;
static int runs, ended, tid;
struct Th : CThread { int mode; Th(int m) : mode(m) {} int run() { { rt::Quiet z; runs++; tid = rt::self(); sigset_t g; pthread_sigmask(SIG_BLOCK, NULL, &g); MC_CHECK(sigismember(&g, SIGPIPE) == 1, "thread:SIGPIPE", "a write to a closed connection in this thread ends the process"); mc::op("run() starts"); mc::step(); mc::state(runs * 8 + ended); } if (mode == 1) usleep(1000); else if (mode == 2) while (!isStoped()) usleep(1000); else rt::yield(); { rt::Quiet z; ended++; mc::op("run() ends"); } return 0; } };
static void s_life() {
    rt::begin(); rt::race_detect(true); runs = ended = 0; tid = -1; mc::nontrivial(); mc::set_deviations(mc::tier(2, 3));
    rt::set_deadlock([]() { std::string b = rt::blocked_report(); mc::fail("thread:deadlock", "%s", b.c_str()); });
    int mode = mc::choose(3); Th *t = new Th(mode); static bool failing; failing = mc::choose(2);
    if (failing) { vk::fault = [](const char *c, int, size_t) -> long { return !strcmp(c, "pthread_create") && failing ? -EAGAIN : 0; }; MC_CHECK(t->start() == -1, "thread:start result", "start() reports success although no thread could be created"); MC_CHECK(runs == 0, "thread:runs", "run() called by a failed start"); failing = false; if (mc::choose(2)) { MC_CHECK(t->join() == 0 || true, "x", "x"); delete t; rt::end(); return; } }
    MC_CHECK(!t->isStoped(), "thread:stopped", "isStoped() before start");
    MC_CHECK(t->start() == 0, "thread:start result", "start fails"); MC_CHECK(t->getId() != 0, "thread:id", "no id after start");
    bool stop = mode == 2 || mc::choose(2);
    if (stop) { if (mc::choose(2)) usleep(500); MC_CHECK(t->stop() == 0, "thread:stop", "stop fails"); MC_CHECK(t->isStoped(), "thread:stopped", "isStoped() is false after stop"); if (mc::choose(2)) t->stop(); }
    MC_CHECK(t->join() == 0, "thread:join", "join fails"); { rt::Quiet z; MC_CHECK(stop || (runs == 1 && ended == 1), "thread:join", "join returns with runs %d ended %d", runs, ended); MC_CHECK(runs <= 1, "thread:runs", "run() called %d times", runs); MC_CHECK(rt::live_fibers() == 0, "thread:join", "join returns before the thread ended"); }
    int after = mc::choose(4); if (after == 1) t->join(); if (after == 2) t->stop(); if (after == 3) t->detach();
    delete t; rt::end();
}
static void s_detach() {
    rt::begin(); rt::race_detect(true); runs = ended = 0; mc::nontrivial(); mc::set_deviations(mc::tier(2, 3)); rt::set_deadlock([]() { std::string b = rt::blocked_report(); mc::fail("thread:deadlock", "%s", b.c_str()); });
    Th *t = new Th(mc::choose(2)); MC_CHECK(t->start() == 0, "thread:start result", "start fails"); MC_CHECK(t->detach() == 0, "thread:detach", "detach fails"); if (mc::choose(2)) t->detach();
    rt::wait_quiescent(); { rt::Quiet z; MC_CHECK(runs == 1 && ended == 1, "thread:runs", "a detached thread ran %d times, ended %d", runs, ended); } rt::race_detect(false); if (mc::choose(2)) t->stop(); delete t; mc::done();
}
static void s_two() { // threads are independent; each runs its own object
    rt::begin(); rt::race_detect(true); mc::nontrivial(); mc::set_deviations(mc::tier(2, 3)); struct N : CThread { int n; int run() { rt::yield(); n++; return 0; } }; N a, b; a.n = b.n = 0; int k = mc::choose(3); if (k != 1) a.start(); if (k != 2) b.start(); if (k != 1) a.join(); if (k != 2) b.join(); MC_CHECK(a.n == (k != 1) && b.n == (k != 2), "thread:runs", "counters %d %d", a.n, b.n); 
    if (k == 0) { a.start(); a.join(); MC_CHECK(a.n == 2, "thread:restart", "a restarted thread does not run"); }
    rt::end();
}
static int made; struct Obj { long a, b; Obj() { rt::yield(); a = 11; { rt::Quiet z; made++; } rt::yield(); b = 22; } }; 
template <int N> struct Tag : Obj {};
static void s_single() {
    rt::begin(); rt::race_detect(true); made = 0; mc::nontrivial(); mc::set_deviations(mc::tier(3, 4)); static Obj *got[3]; int n = 2 + mc::choose(2); std::vector<int> t;
    for (int i = 0; i < n; i++) t.push_back(rt::spawn([i]() { Obj &o = CSingleton<Obj>::getInstance(); long a = o.a, b = o.b; rt::Quiet z; got[i] = &o; mc::step(); MC_CHECK(a == 11 && b == 22, "singleton:half built", "instance with %ld %ld", a, b); }, "t"));
    for (int i = 0; i < n; i++) rt::join(t[i]); MC_CHECK(made == 1, "singleton:instances", "%d instances built", made); for (int i = 0; i < n; i++) MC_CHECK(got[i] == got[0] && &CSingleton<Obj>::getInstance() == got[0], "singleton:instances", "different instances");
    mc::done();
}
int main(int argc, char **argv) {
    std::vector<mc::Space> s;
    s.push_back({ "lifecycle", s_life, false, 0, "start/stop/join/destroy in all orders, failing start" });
    s.push_back({ "detach", s_detach, false, 0, "detached threads" });
    s.push_back({ "two-threads", s_two, false, 0, "independent objects, restart" });
    s.push_back({ "singleton", s_single, true, 0, "2-3 threads asking for the instance, all interleavings up to the preemption bound" });
    return mc::run(argc, argv, s, "schedules of thread lifecycles; non-trivial: always");
}
