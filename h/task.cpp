// CTask: a pool of threads running dispatched tasks.
#include <string>
#include <unistd.h>
#include "CTask.h"
#include "mcrt.h"
#include "mc.h"
using namespace lce;
struct Rec { int type; long data; int runs, ended; bool accepted; };
static std::vector<Rec> recs; static int workers, running, limit, redispatch, slow; static bool gone; static int inQueueMin;
struct T;
static T *task; static int disp(int type, long data);
struct T : CTask {
    void onWork(int type, void *p, int idx) {
        { rt::Quiet z; long d = (long)p; mc::op("worker %d runs task %d/%ld", idx, type, d); mc::step(); { uint64_t h = 0; for (size_t i = 0; i < recs.size(); i++) h = mc::hmix(h, recs[i].runs * 2 + recs[i].accepted); mc::state(h); } MC_CHECK(!gone, "task:runs after destruction", "a task runs after the pool was destroyed");
        MC_CHECK(idx >= 0 && idx < workers, "task:worker index", "index %d of %d workers", idx, workers); MC_CHECK(d >= 0 && d < (long)recs.size() && recs[d].type == type, "task:wrong task", "task %d/%ld was never dispatched", type, d);
        MC_CHECK(++recs[d].runs == 1, "task:run twice", "task %ld runs twice", d); running++; MC_CHECK(running <= workers, "task:too many at once", "%d tasks run on %d workers", running, workers);
        if (workers == 1) for (size_t i = d + 1; i < recs.size(); i++) MC_CHECK(!recs[i].runs || recs[i].type != type, "task:out of order", "one worker runs task %zu before task %ld", i, d); }
        struct G { long d; ~G() { rt::Quiet z; running--; } } g = { (long)p };
        if (slow) usleep(1000); else rt::yield();
        bool again; { rt::Quiet z; again = redispatch > 0; if (again) redispatch--; }
        if (again) { long n; { rt::Quiet z; n = recs.size(); Rec r = { 5, n, 0, 0, false }; recs.push_back(r); } disp(5, n); }
        rt::Quiet z; recs[g.d].ended++;
    }
};
static int disp(int type, long data) {
    int before; { rt::Quiet z; int waiting = 0; for (size_t i = 0; i < recs.size(); i++) if (recs[i].accepted && !recs[i].runs) waiting++; before = waiting; }
    int rc = task->dispatch(type, (void *)data); rt::Quiet z; mc::op("dispatch %d/%ld -> %d", type, data, rc); mc::step();
    if (rc == 0) { recs[data].accepted = true; int waiting = 0; for (size_t i = 0; i < recs.size(); i++) if (recs[i].accepted && !recs[i].runs) waiting++; MC_CHECK(waiting <= limit + 1 + 2 * workers, "task:limit", "%d tasks wait with a limit of %d", waiting, limit); }
    else MC_CHECK(limit < 50, "task:refused", "dispatch refuses far below the limit");
    return rc;
}
static void setup(int w, int lim) { rt::begin(); rt::race_detect(true); recs.clear(); workers = w; limit = lim; running = 0; redispatch = 0; slow = 0; gone = false; task = new T; MC_CHECK(task->init(w, lim) == 0, "task:init", "init fails"); 
    rt::set_deadlock([]() { std::string b = rt::blocked_report(); mc::fail("task:deadlock", "an operation never completes\n%s", b.c_str()); }); }
static void s_run() {
    int w = 1 + mc::choose(2), nd = 1 + mc::choose(2); setup(w, 100); redispatch = mc::choose(2); bool before = mc::choose(2); slow = 0; mc::nontrivial();
    rt::spurious(true); mc::set_deviations(w + nd == 4 ? mc::tier(1, 2) : mc::tier(2, 3));
    if (before) { Rec r = { 3, 0, 0, 0, false }; recs.push_back(r); disp(3, 0); }
    MC_CHECK(task->run() == 0, "task:run", "run fails");
    std::vector<int> t; for (int i = 0; i < nd; i++) t.push_back(rt::spawn([i]() { for (int k = 0; k < 2; k++) { long n; { rt::Quiet z; n = recs.size(); Rec r = { i + 1, n, 0, 0, false }; recs.push_back(r); } disp(i + 1, n); } }, "dispatcher"));
    for (size_t i = 0; i < t.size(); i++) rt::join(t[i]);
    rt::wait_quiescent();
    for (size_t i = 0; i < recs.size(); i++) MC_CHECK(recs[i].runs == 1 && recs[i].ended == 1, "task:lost", "task %zu ran %d times", i, recs[i].runs);
    mc::done();
}
// the waiting queue is bounded: tasks dispatched while nobody works
static void s_limit() {
    int lim = 1 + mc::choose(4); setup(1 + mc::choose(2), lim); mc::nontrivial(); mc::set_deviations(0); int ok = 0, n = lim + 4, first = -1;
    for (int i = 0; i < n; i++) { Rec r = { 1, (long)i, 0, 0, false }; recs.push_back(r); if (disp(1, i) == 0) { ok++; MC_CHECK(first < 0, "task:limit", "accepted after a refusal"); } else if (first < 0) first = i; }
    MC_CHECK(ok >= lim && ok <= lim + 1, "task:limit", "%d tasks accepted with a limit of %d", ok, lim);
    task->run(); rt::wait_quiescent();
    for (int i = 0; i < n; i++) MC_CHECK(recs[i].runs == (int)recs[i].accepted, "task:lost", "task %d accepted %d ran %d", i, recs[i].accepted, recs[i].runs);
    Rec r = { 2, (long)n, 0, 0, false }; recs.push_back(r); MC_CHECK(disp(2, n) == 0, "task:limit", "refused with an empty queue"); rt::wait_quiescent(); MC_CHECK(recs[n].runs == 1, "task:lost", "task after a refusal lost"); mc::done();
}
// stop and destroy at any point
static void s_stop() {
    int w = 1 + mc::choose(2); setup(w, 100); slow = mc::choose(2); int stopping = mc::choose(3);    // stop, stop+dispatch, destroy only
    mc::nontrivial(); mc::set_deviations(mc::tier(2, 3)); int n = 1 + mc::choose(2); 
    if (mc::choose(2)) MC_CHECK(task->run() == 0, "task:run", "run fails");
    for (int i = 0; i < n; i++) { Rec r = { 1, (long)i, 0, 0, false }; recs.push_back(r); disp(1, i); }
    if (mc::choose(2)) rt::wait_quiescent();
    if (stopping < 2) { mc::op("stop"); MC_CHECK(task->stop() == 0, "task:stop", "stop fails"); }
    if (stopping == 1) { if (mc::choose(2)) rt::wait_quiescent(); Rec r = { 4, (long)recs.size(), 0, 0, false }; recs.push_back(r); disp(4, recs.size() - 1); MC_CHECK(task->stop() == 0, "task:stop", "second stop fails"); }
    rt::wait_quiescent(); rt::race_detect(false); /* the owner knows the pool is idle by means the detector does not see */ mc::op("destroy"); delete task; { rt::Quiet z; gone = true; } mc::op("destroyed"); rt::wait_quiescent();
    MC_CHECK(running == 0, "task:runs after destruction", "a task is still running");
    MC_CHECK(rt::live_fibers() == 0, "task:threads left", "%d threads survive the pool", rt::live_fibers());
    mc::done();
}
int main(int argc, char **argv) {
    std::vector<mc::Space> s;
    s.push_back({ "dispatch", s_run, false, 0, "1-2 workers, 1-2 dispatchers, tasks dispatching tasks, all interleavings up to the preemption bound" });
    s.push_back({ "limit", s_limit, false, 0, "the bound on waiting tasks" });
    s.push_back({ "stop", s_stop, false, 0, "stop and destruction at any point" });
    return mc::run(argc, argv, s, "schedules of workers and dispatchers; non-trivial: always");
}
